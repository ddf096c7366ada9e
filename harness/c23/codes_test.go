package c23

import "github.com/renthraysk/xtorm/netx/connection/errs"

// codes are the error codes of the server (sql/share/errmsg-utf8.txt numbers its errors in
// sequence: 1000 to 1885, 3000 to 3189) and of the X plugin (5010 on): the name, the server's
// number, and the exported constant.
var codes = []struct {
	name string
	num  uint32
	got  uint32
}{
	{"ErHashchk", 1000, errs.ErHashchk},
	{"ErNisamchk", 1001, errs.ErNisamchk},
	{"ErNo", 1002, errs.ErNo},
	{"ErYes", 1003, errs.ErYes},
	{"ErCantCreateFile", 1004, errs.ErCantCreateFile},
	{"ErCantCreateTable", 1005, errs.ErCantCreateTable},
	{"ErCantCreateDb", 1006, errs.ErCantCreateDb},
	{"ErDbCreateExists", 1007, errs.ErDbCreateExists},
	{"ErDbDropExists", 1008, errs.ErDbDropExists},
	{"ErDbDropDelete", 1009, errs.ErDbDropDelete},
	{"ErDbDropRmdir", 1010, errs.ErDbDropRmdir},
	{"ErCantDeleteFile", 1011, errs.ErCantDeleteFile},
	{"ErCantFindSystemRec", 1012, errs.ErCantFindSystemRec},
	{"ErCantGetStat", 1013, errs.ErCantGetStat},
	{"ErCantGetWd", 1014, errs.ErCantGetWd},
	{"ErCantLock", 1015, errs.ErCantLock},
	{"ErCantOpenFile", 1016, errs.ErCantOpenFile},
	{"ErFileNotFound", 1017, errs.ErFileNotFound},
	{"ErCantReadDir", 1018, errs.ErCantReadDir},
	{"ErCantSetWd", 1019, errs.ErCantSetWd},
	{"ErCheckread", 1020, errs.ErCheckread},
	{"ErDiskFull", 1021, errs.ErDiskFull},
	{"ErDupKey", 1022, errs.ErDupKey},
	{"ErErrorOnClose", 1023, errs.ErErrorOnClose},
	{"ErErrorOnRead", 1024, errs.ErErrorOnRead},
	{"ErErrorOnRename", 1025, errs.ErErrorOnRename},
	{"ErErrorOnWrite", 1026, errs.ErErrorOnWrite},
	{"ErFileUsed", 1027, errs.ErFileUsed},
	{"ErFilsortAbort", 1028, errs.ErFilsortAbort},
	{"ErFormNotFound", 1029, errs.ErFormNotFound},
	{"ErGetErrno", 1030, errs.ErGetErrno},
	{"ErIllegalHa", 1031, errs.ErIllegalHa},
	{"ErKeyNotFound", 1032, errs.ErKeyNotFound},
	{"ErNotFormFile", 1033, errs.ErNotFormFile},
	{"ErNotKeyfile", 1034, errs.ErNotKeyfile},
	{"ErOldKeyfile", 1035, errs.ErOldKeyfile},
	{"ErOpenAsReadonly", 1036, errs.ErOpenAsReadonly},
	{"ErOutofmemory", 1037, errs.ErOutofmemory},
	{"ErOutOfSortmemory", 1038, errs.ErOutOfSortmemory},
	{"ErUnexpectedEOF", 1039, errs.ErUnexpectedEOF},
	{"ErConCountError", 1040, errs.ErConCountError},
	{"ErOutOfResources", 1041, errs.ErOutOfResources},
	{"ErBadHostError", 1042, errs.ErBadHostError},
	{"ErHandshakeError", 1043, errs.ErHandshakeError},
	{"ErDbaccessDeniedError", 1044, errs.ErDbaccessDeniedError},
	{"ErAccessDeniedError", 1045, errs.ErAccessDeniedError},
	{"ErNoDbError", 1046, errs.ErNoDbError},
	{"ErUnknownComError", 1047, errs.ErUnknownComError},
	{"ErBadNullError", 1048, errs.ErBadNullError},
	{"ErBadDbError", 1049, errs.ErBadDbError},
	{"ErTableExistsError", 1050, errs.ErTableExistsError},
	{"ErBadTableError", 1051, errs.ErBadTableError},
	{"ErNonUniqError", 1052, errs.ErNonUniqError},
	{"ErServerShutdown", 1053, errs.ErServerShutdown},
	{"ErBadFieldError", 1054, errs.ErBadFieldError},
	{"ErWrongFieldWithGroup", 1055, errs.ErWrongFieldWithGroup},
	{"ErWrongGroupField", 1056, errs.ErWrongGroupField},
	{"ErWrongSumSelect", 1057, errs.ErWrongSumSelect},
	{"ErWrongValueCount", 1058, errs.ErWrongValueCount},
	{"ErTooLongIdent", 1059, errs.ErTooLongIdent},
	{"ErDupFieldname", 1060, errs.ErDupFieldname},
	{"ErDupKeyname", 1061, errs.ErDupKeyname},
	{"ErDupEntry", 1062, errs.ErDupEntry},
	{"ErWrongFieldSpec", 1063, errs.ErWrongFieldSpec},
	{"ErParseError", 1064, errs.ErParseError},
	{"ErEmptyQuery", 1065, errs.ErEmptyQuery},
	{"ErNonuniqTable", 1066, errs.ErNonuniqTable},
	{"ErInvalidDefault", 1067, errs.ErInvalidDefault},
	{"ErMultiplePriKey", 1068, errs.ErMultiplePriKey},
	{"ErTooManyKeys", 1069, errs.ErTooManyKeys},
	{"ErTooManyKeyParts", 1070, errs.ErTooManyKeyParts},
	{"ErTooLongKey", 1071, errs.ErTooLongKey},
	{"ErKeyColumnDoesNotExits", 1072, errs.ErKeyColumnDoesNotExits},
	{"ErBlobUsedAsKey", 1073, errs.ErBlobUsedAsKey},
	{"ErTooBigFieldlength", 1074, errs.ErTooBigFieldlength},
	{"ErWrongAutoKey", 1075, errs.ErWrongAutoKey},
	{"ErReady", 1076, errs.ErReady},
	{"ErNormalShutdown", 1077, errs.ErNormalShutdown},
	{"ErGotSignal", 1078, errs.ErGotSignal},
	{"ErShutdownComplete", 1079, errs.ErShutdownComplete},
	{"ErForcingClose", 1080, errs.ErForcingClose},
	{"ErIpsockError", 1081, errs.ErIpsockError},
	{"ErNoSuchIndex", 1082, errs.ErNoSuchIndex},
	{"ErWrongFieldTerminators", 1083, errs.ErWrongFieldTerminators},
	{"ErBlobsAndNoTerminated", 1084, errs.ErBlobsAndNoTerminated},
	{"ErTextfileNotReadable", 1085, errs.ErTextfileNotReadable},
	{"ErFileExistsError", 1086, errs.ErFileExistsError},
	{"ErLoadInfo", 1087, errs.ErLoadInfo},
	{"ErAlterInfo", 1088, errs.ErAlterInfo},
	{"ErWrongSubKey", 1089, errs.ErWrongSubKey},
	{"ErCantRemoveAllFields", 1090, errs.ErCantRemoveAllFields},
	{"ErCantDropFieldOrKey", 1091, errs.ErCantDropFieldOrKey},
	{"ErInsertInfo", 1092, errs.ErInsertInfo},
	{"ErUpdateTableUsed", 1093, errs.ErUpdateTableUsed},
	{"ErNoSuchThread", 1094, errs.ErNoSuchThread},
	{"ErKillDeniedError", 1095, errs.ErKillDeniedError},
	{"ErNoTablesUsed", 1096, errs.ErNoTablesUsed},
	{"ErTooBigSet", 1097, errs.ErTooBigSet},
	{"ErNoUniqueLogfile", 1098, errs.ErNoUniqueLogfile},
	{"ErTableNotLockedForWrite", 1099, errs.ErTableNotLockedForWrite},
	{"ErTableNotLocked", 1100, errs.ErTableNotLocked},
	{"ErBlobCantHaveDefault", 1101, errs.ErBlobCantHaveDefault},
	{"ErWrongDbName", 1102, errs.ErWrongDbName},
	{"ErWrongTableName", 1103, errs.ErWrongTableName},
	{"ErTooBigSelect", 1104, errs.ErTooBigSelect},
	{"ErUnknownError", 1105, errs.ErUnknownError},
	{"ErUnknownProcedure", 1106, errs.ErUnknownProcedure},
	{"ErWrongParamcountToProcedure", 1107, errs.ErWrongParamcountToProcedure},
	{"ErWrongParametersToProcedure", 1108, errs.ErWrongParametersToProcedure},
	{"ErUnknownTable", 1109, errs.ErUnknownTable},
	{"ErFieldSpecifiedTwice", 1110, errs.ErFieldSpecifiedTwice},
	{"ErInvalidGroupFuncUse", 1111, errs.ErInvalidGroupFuncUse},
	{"ErUnsupportedExtension", 1112, errs.ErUnsupportedExtension},
	{"ErTableMustHaveColumns", 1113, errs.ErTableMustHaveColumns},
	{"ErRecordFileFull", 1114, errs.ErRecordFileFull},
	{"ErUnknownCharacterSet", 1115, errs.ErUnknownCharacterSet},
	{"ErTooManyTables", 1116, errs.ErTooManyTables},
	{"ErTooManyFields", 1117, errs.ErTooManyFields},
	{"ErTooBigRowsize", 1118, errs.ErTooBigRowsize},
	{"ErStackOverrun", 1119, errs.ErStackOverrun},
	{"ErWrongOuterJoin", 1120, errs.ErWrongOuterJoin},
	{"ErNullColumnInIndex", 1121, errs.ErNullColumnInIndex},
	{"ErCantFindUdf", 1122, errs.ErCantFindUdf},
	{"ErCantInitializeUdf", 1123, errs.ErCantInitializeUdf},
	{"ErUdfNoPaths", 1124, errs.ErUdfNoPaths},
	{"ErUdfExists", 1125, errs.ErUdfExists},
	{"ErCantOpenLibrary", 1126, errs.ErCantOpenLibrary},
	{"ErCantFindDlEntry", 1127, errs.ErCantFindDlEntry},
	{"ErFunctionNotDefined", 1128, errs.ErFunctionNotDefined},
	{"ErHostIsBlocked", 1129, errs.ErHostIsBlocked},
	{"ErHostNotPrivileged", 1130, errs.ErHostNotPrivileged},
	{"ErPasswordAnonymousUser", 1131, errs.ErPasswordAnonymousUser},
	{"ErPasswordNotAllowed", 1132, errs.ErPasswordNotAllowed},
	{"ErPasswordNoMatch", 1133, errs.ErPasswordNoMatch},
	{"ErUpdateInfo", 1134, errs.ErUpdateInfo},
	{"ErCantCreateThread", 1135, errs.ErCantCreateThread},
	{"ErWrongValueCountOnRow", 1136, errs.ErWrongValueCountOnRow},
	{"ErCantReopenTable", 1137, errs.ErCantReopenTable},
	{"ErInvalidUseOfNull", 1138, errs.ErInvalidUseOfNull},
	{"ErRegexpError", 1139, errs.ErRegexpError},
	{"ErMixOfGroupFuncAndFields", 1140, errs.ErMixOfGroupFuncAndFields},
	{"ErNonexistingGrant", 1141, errs.ErNonexistingGrant},
	{"ErTableaccessDeniedError", 1142, errs.ErTableaccessDeniedError},
	{"ErColumnaccessDeniedError", 1143, errs.ErColumnaccessDeniedError},
	{"ErIllegalGrantForTable", 1144, errs.ErIllegalGrantForTable},
	{"ErGrantWrongHostOrUser", 1145, errs.ErGrantWrongHostOrUser},
	{"ErNoSuchTable", 1146, errs.ErNoSuchTable},
	{"ErNonexistingTableGrant", 1147, errs.ErNonexistingTableGrant},
	{"ErNotAllowedCommand", 1148, errs.ErNotAllowedCommand},
	{"ErSyntaxError", 1149, errs.ErSyntaxError},
	{"ErDelayedCantChangeLock", 1150, errs.ErDelayedCantChangeLock},
	{"ErTooManyDelayedThreads", 1151, errs.ErTooManyDelayedThreads},
	{"ErAbortingConnection", 1152, errs.ErAbortingConnection},
	{"ErNetPacketTooLarge", 1153, errs.ErNetPacketTooLarge},
	{"ErNetReadErrorFromPipe", 1154, errs.ErNetReadErrorFromPipe},
	{"ErNetFcntlError", 1155, errs.ErNetFcntlError},
	{"ErNetPacketsOutOfOrder", 1156, errs.ErNetPacketsOutOfOrder},
	{"ErNetUncompressError", 1157, errs.ErNetUncompressError},
	{"ErNetReadError", 1158, errs.ErNetReadError},
	{"ErNetReadInterrupted", 1159, errs.ErNetReadInterrupted},
	{"ErNetErrorOnWrite", 1160, errs.ErNetErrorOnWrite},
	{"ErNetWriteInterrupted", 1161, errs.ErNetWriteInterrupted},
	{"ErTooLongString", 1162, errs.ErTooLongString},
	{"ErTableCantHandleBlob", 1163, errs.ErTableCantHandleBlob},
	{"ErTableCantHandleAutoIncrement", 1164, errs.ErTableCantHandleAutoIncrement},
	{"ErDelayedInsertTableLocked", 1165, errs.ErDelayedInsertTableLocked},
	{"ErWrongColumnName", 1166, errs.ErWrongColumnName},
	{"ErWrongKeyColumn", 1167, errs.ErWrongKeyColumn},
	{"ErWrongMrgTable", 1168, errs.ErWrongMrgTable},
	{"ErDupUnique", 1169, errs.ErDupUnique},
	{"ErBlobKeyWithoutLength", 1170, errs.ErBlobKeyWithoutLength},
	{"ErPrimaryCantHaveNull", 1171, errs.ErPrimaryCantHaveNull},
	{"ErTooManyRows", 1172, errs.ErTooManyRows},
	{"ErRequiresPrimaryKey", 1173, errs.ErRequiresPrimaryKey},
	{"ErNoRaidCompiled", 1174, errs.ErNoRaidCompiled},
	{"ErUpdateWithoutKeyInSafeMode", 1175, errs.ErUpdateWithoutKeyInSafeMode},
	{"ErKeyDoesNotExits", 1176, errs.ErKeyDoesNotExits},
	{"ErCheckNoSuchTable", 1177, errs.ErCheckNoSuchTable},
	{"ErCheckNotImplemented", 1178, errs.ErCheckNotImplemented},
	{"ErCantDoThisDuringAnTransaction", 1179, errs.ErCantDoThisDuringAnTransaction},
	{"ErErrorDuringCommit", 1180, errs.ErErrorDuringCommit},
	{"ErErrorDuringRollback", 1181, errs.ErErrorDuringRollback},
	{"ErErrorDuringFlushLogs", 1182, errs.ErErrorDuringFlushLogs},
	{"ErErrorDuringCheckpoint", 1183, errs.ErErrorDuringCheckpoint},
	{"ErNewAbortingConnection", 1184, errs.ErNewAbortingConnection},
	{"ErDumpNotImplemented", 1185, errs.ErDumpNotImplemented},
	{"ErFlushMasterBinlogClosed", 1186, errs.ErFlushMasterBinlogClosed},
	{"ErIndexRebuild", 1187, errs.ErIndexRebuild},
	{"ErMaster", 1188, errs.ErMaster},
	{"ErMasterNetRead", 1189, errs.ErMasterNetRead},
	{"ErMasterNetWrite", 1190, errs.ErMasterNetWrite},
	{"ErFtMatchingKeyNotFound", 1191, errs.ErFtMatchingKeyNotFound},
	{"ErLockOrActiveTransaction", 1192, errs.ErLockOrActiveTransaction},
	{"ErUnknownSystemVariable", 1193, errs.ErUnknownSystemVariable},
	{"ErCrashedOnUsage", 1194, errs.ErCrashedOnUsage},
	{"ErCrashedOnRepair", 1195, errs.ErCrashedOnRepair},
	{"ErWarningNotCompleteRollback", 1196, errs.ErWarningNotCompleteRollback},
	{"ErTransCacheFull", 1197, errs.ErTransCacheFull},
	{"ErSlaveMustStop", 1198, errs.ErSlaveMustStop},
	{"ErSlaveNotRunning", 1199, errs.ErSlaveNotRunning},
	{"ErBadSlave", 1200, errs.ErBadSlave},
	{"ErMasterInfo", 1201, errs.ErMasterInfo},
	{"ErSlaveThread", 1202, errs.ErSlaveThread},
	{"ErTooManyUserConnections", 1203, errs.ErTooManyUserConnections},
	{"ErSetConstantsOnly", 1204, errs.ErSetConstantsOnly},
	{"ErLockWaitTimeout", 1205, errs.ErLockWaitTimeout},
	{"ErLockTableFull", 1206, errs.ErLockTableFull},
	{"ErReadOnlyTransaction", 1207, errs.ErReadOnlyTransaction},
	{"ErDropDbWithReadLock", 1208, errs.ErDropDbWithReadLock},
	{"ErCreateDbWithReadLock", 1209, errs.ErCreateDbWithReadLock},
	{"ErWrongArguments", 1210, errs.ErWrongArguments},
	{"ErNoPermissionToCreateUser", 1211, errs.ErNoPermissionToCreateUser},
	{"ErUnionTablesInDifferentDir", 1212, errs.ErUnionTablesInDifferentDir},
	{"ErLockDeadlock", 1213, errs.ErLockDeadlock},
	{"ErTableCantHandleFt", 1214, errs.ErTableCantHandleFt},
	{"ErCannotAddForeign", 1215, errs.ErCannotAddForeign},
	{"ErNoReferencedRow", 1216, errs.ErNoReferencedRow},
	{"ErRowIsReferenced", 1217, errs.ErRowIsReferenced},
	{"ErConnectToMaster", 1218, errs.ErConnectToMaster},
	{"ErQueryOnMaster", 1219, errs.ErQueryOnMaster},
	{"ErErrorWhenExecutingCommand", 1220, errs.ErErrorWhenExecutingCommand},
	{"ErWrongUsage", 1221, errs.ErWrongUsage},
	{"ErWrongNumberOfColumnsInSelect", 1222, errs.ErWrongNumberOfColumnsInSelect},
	{"ErCantUpdateWithReadlock", 1223, errs.ErCantUpdateWithReadlock},
	{"ErMixingNotAllowed", 1224, errs.ErMixingNotAllowed},
	{"ErDupArgument", 1225, errs.ErDupArgument},
	{"ErUserLimitReached", 1226, errs.ErUserLimitReached},
	{"ErSpecificAccessDeniedError", 1227, errs.ErSpecificAccessDeniedError},
	{"ErLocalVariable", 1228, errs.ErLocalVariable},
	{"ErGlobalVariable", 1229, errs.ErGlobalVariable},
	{"ErNoDefault", 1230, errs.ErNoDefault},
	{"ErWrongValueForVar", 1231, errs.ErWrongValueForVar},
	{"ErWrongTypeForVar", 1232, errs.ErWrongTypeForVar},
	{"ErVarCantBeRead", 1233, errs.ErVarCantBeRead},
	{"ErCantUseOptionHere", 1234, errs.ErCantUseOptionHere},
	{"ErNotSupportedYet", 1235, errs.ErNotSupportedYet},
	{"ErMasterFatalErrorReadingBinlog", 1236, errs.ErMasterFatalErrorReadingBinlog},
	{"ErSlaveIgnoredTable", 1237, errs.ErSlaveIgnoredTable},
	{"ErIncorrectGlobalLocalVar", 1238, errs.ErIncorrectGlobalLocalVar},
	{"ErWrongFkDef", 1239, errs.ErWrongFkDef},
	{"ErKeyRefDoNotMatchTableRef", 1240, errs.ErKeyRefDoNotMatchTableRef},
	{"ErOperandColumns", 1241, errs.ErOperandColumns},
	{"ErSubqueryNo1Row", 1242, errs.ErSubqueryNo1Row},
	{"ErUnknownStmtHandler", 1243, errs.ErUnknownStmtHandler},
	{"ErCorruptHelpDb", 1244, errs.ErCorruptHelpDb},
	{"ErCyclicReference", 1245, errs.ErCyclicReference},
	{"ErAutoConvert", 1246, errs.ErAutoConvert},
	{"ErIllegalReference", 1247, errs.ErIllegalReference},
	{"ErDerivedMustHaveAlias", 1248, errs.ErDerivedMustHaveAlias},
	{"ErSelectReduced", 1249, errs.ErSelectReduced},
	{"ErTablenameNotAllowedHere", 1250, errs.ErTablenameNotAllowedHere},
	{"ErNotSupportedAuthMode", 1251, errs.ErNotSupportedAuthMode},
	{"ErSpatialCantHaveNull", 1252, errs.ErSpatialCantHaveNull},
	{"ErCollationCharsetMismatch", 1253, errs.ErCollationCharsetMismatch},
	{"ErSlaveWasRunning", 1254, errs.ErSlaveWasRunning},
	{"ErSlaveWasNotRunning", 1255, errs.ErSlaveWasNotRunning},
	{"ErTooBigForUncompress", 1256, errs.ErTooBigForUncompress},
	{"ErZlibZMemError", 1257, errs.ErZlibZMemError},
	{"ErZlibZBufError", 1258, errs.ErZlibZBufError},
	{"ErZlibZDataError", 1259, errs.ErZlibZDataError},
	{"ErCutValueGroupConcat", 1260, errs.ErCutValueGroupConcat},
	{"ErWarnTooFewRecords", 1261, errs.ErWarnTooFewRecords},
	{"ErWarnTooManyRecords", 1262, errs.ErWarnTooManyRecords},
	{"ErWarnNullToNotnull", 1263, errs.ErWarnNullToNotnull},
	{"ErWarnDataOutOfRange", 1264, errs.ErWarnDataOutOfRange},
	{"WARNDataTruncated", 1265, errs.WARNDataTruncated},
	{"ErWarnUsingOtherHandler", 1266, errs.ErWarnUsingOtherHandler},
	{"ErCantAggregate2Collations", 1267, errs.ErCantAggregate2Collations},
	{"ErDropUser", 1268, errs.ErDropUser},
	{"ErRevokeGrants", 1269, errs.ErRevokeGrants},
	{"ErCantAggregate3Collations", 1270, errs.ErCantAggregate3Collations},
	{"ErCantAggregateNcollations", 1271, errs.ErCantAggregateNcollations},
	{"ErVariableIsNotStruct", 1272, errs.ErVariableIsNotStruct},
	{"ErUnknownCollation", 1273, errs.ErUnknownCollation},
	{"ErSlaveIgnoredSslParams", 1274, errs.ErSlaveIgnoredSslParams},
	{"ErServerIsInSecureAuthMode", 1275, errs.ErServerIsInSecureAuthMode},
	{"ErWarnFieldResolved", 1276, errs.ErWarnFieldResolved},
	{"ErBadSlaveUntilCond", 1277, errs.ErBadSlaveUntilCond},
	{"ErMissingSkipSlave", 1278, errs.ErMissingSkipSlave},
	{"ErUntilCondIgnored", 1279, errs.ErUntilCondIgnored},
	{"ErWrongNameForIndex", 1280, errs.ErWrongNameForIndex},
	{"ErWrongNameForCatalog", 1281, errs.ErWrongNameForCatalog},
	{"ErWarnQcResize", 1282, errs.ErWarnQcResize},
	{"ErBadFtColumn", 1283, errs.ErBadFtColumn},
	{"ErUnknownKeyCache", 1284, errs.ErUnknownKeyCache},
	{"ErWarnHostnameWontWork", 1285, errs.ErWarnHostnameWontWork},
	{"ErUnknownStorageEngine", 1286, errs.ErUnknownStorageEngine},
	{"ErWarnDeprecatedSyntax", 1287, errs.ErWarnDeprecatedSyntax},
	{"ErNonUpdatableTable", 1288, errs.ErNonUpdatableTable},
	{"ErFeatureDisabled", 1289, errs.ErFeatureDisabled},
	{"ErOptionPreventsStatement", 1290, errs.ErOptionPreventsStatement},
	{"ErDuplicatedValueInType", 1291, errs.ErDuplicatedValueInType},
	{"ErTruncatedWrongValue", 1292, errs.ErTruncatedWrongValue},
	{"ErTooMuchAutoTimestampCols", 1293, errs.ErTooMuchAutoTimestampCols},
	{"ErInvalidOnUpdate", 1294, errs.ErInvalidOnUpdate},
	{"ErUnsupportedPs", 1295, errs.ErUnsupportedPs},
	{"ErGetErrmsg", 1296, errs.ErGetErrmsg},
	{"ErGetTemporaryErrmsg", 1297, errs.ErGetTemporaryErrmsg},
	{"ErUnknownTimeZone", 1298, errs.ErUnknownTimeZone},
	{"ErWarnInvalidTimestamp", 1299, errs.ErWarnInvalidTimestamp},
	{"ErInvalidCharacterString", 1300, errs.ErInvalidCharacterString},
	{"ErWarnAllowedPacketOverflowed", 1301, errs.ErWarnAllowedPacketOverflowed},
	{"ErConflictingDeclarations", 1302, errs.ErConflictingDeclarations},
	{"ErSpNoRecursiveCreate", 1303, errs.ErSpNoRecursiveCreate},
	{"ErSpAlreadyExists", 1304, errs.ErSpAlreadyExists},
	{"ErSpDoesNotExist", 1305, errs.ErSpDoesNotExist},
	{"ErSpDropFailed", 1306, errs.ErSpDropFailed},
	{"ErSpStoreFailed", 1307, errs.ErSpStoreFailed},
	{"ErSpLilabelMismatch", 1308, errs.ErSpLilabelMismatch},
	{"ErSpLabelRedefine", 1309, errs.ErSpLabelRedefine},
	{"ErSpLabelMismatch", 1310, errs.ErSpLabelMismatch},
	{"ErSpUninitVar", 1311, errs.ErSpUninitVar},
	{"ErSpBadselect", 1312, errs.ErSpBadselect},
	{"ErSpBadreturn", 1313, errs.ErSpBadreturn},
	{"ErSpBadstatement", 1314, errs.ErSpBadstatement},
	{"ErUpdateLogDeprecatedIgnored", 1315, errs.ErUpdateLogDeprecatedIgnored},
	{"ErUpdateLogDeprecatedTranslated", 1316, errs.ErUpdateLogDeprecatedTranslated},
	{"ErQueryInterrupted", 1317, errs.ErQueryInterrupted},
	{"ErSpWrongNoOfArgs", 1318, errs.ErSpWrongNoOfArgs},
	{"ErSpCondMismatch", 1319, errs.ErSpCondMismatch},
	{"ErSpNoreturn", 1320, errs.ErSpNoreturn},
	{"ErSpNoreturnend", 1321, errs.ErSpNoreturnend},
	{"ErSpBadCursorQuery", 1322, errs.ErSpBadCursorQuery},
	{"ErSpBadCursorSelect", 1323, errs.ErSpBadCursorSelect},
	{"ErSpCursorMismatch", 1324, errs.ErSpCursorMismatch},
	{"ErSpCursorAlreadyOpen", 1325, errs.ErSpCursorAlreadyOpen},
	{"ErSpCursorNotOpen", 1326, errs.ErSpCursorNotOpen},
	{"ErSpUndeclaredVar", 1327, errs.ErSpUndeclaredVar},
	{"ErSpWrongNoOfFetchArgs", 1328, errs.ErSpWrongNoOfFetchArgs},
	{"ErSpFetchNoData", 1329, errs.ErSpFetchNoData},
	{"ErSpDupParam", 1330, errs.ErSpDupParam},
	{"ErSpDupVar", 1331, errs.ErSpDupVar},
	{"ErSpDupCond", 1332, errs.ErSpDupCond},
	{"ErSpDupCurs", 1333, errs.ErSpDupCurs},
	{"ErSpCantAlter", 1334, errs.ErSpCantAlter},
	{"ErSpSubselectNyi", 1335, errs.ErSpSubselectNyi},
	{"ErStmtNotAllowedInSfOrTrg", 1336, errs.ErStmtNotAllowedInSfOrTrg},
	{"ErSpVarcondAfterCurshndlr", 1337, errs.ErSpVarcondAfterCurshndlr},
	{"ErSpCursorAfterHandler", 1338, errs.ErSpCursorAfterHandler},
	{"ErSpCaseNotFound", 1339, errs.ErSpCaseNotFound},
	{"ErFparserTooBigFile", 1340, errs.ErFparserTooBigFile},
	{"ErFparserBadHeader", 1341, errs.ErFparserBadHeader},
	{"ErFparserEOFInComment", 1342, errs.ErFparserEOFInComment},
	{"ErFparserErrorInParameter", 1343, errs.ErFparserErrorInParameter},
	{"ErFparserEOFInUnknownParameter", 1344, errs.ErFparserEOFInUnknownParameter},
	{"ErViewNoExplain", 1345, errs.ErViewNoExplain},
	{"ErFrmUnknownType", 1346, errs.ErFrmUnknownType},
	{"ErWrongObject", 1347, errs.ErWrongObject},
	{"ErNonupdateableColumn", 1348, errs.ErNonupdateableColumn},
	{"ErViewSelectDerived", 1349, errs.ErViewSelectDerived},
	{"ErViewSelectClause", 1350, errs.ErViewSelectClause},
	{"ErViewSelectVariable", 1351, errs.ErViewSelectVariable},
	{"ErViewSelectTmptable", 1352, errs.ErViewSelectTmptable},
	{"ErViewWrongList", 1353, errs.ErViewWrongList},
	{"ErWarnViewMerge", 1354, errs.ErWarnViewMerge},
	{"ErWarnViewWithoutKey", 1355, errs.ErWarnViewWithoutKey},
	{"ErViewInvalid", 1356, errs.ErViewInvalid},
	{"ErSpNoDropSp", 1357, errs.ErSpNoDropSp},
	{"ErSpGotoInHndlr", 1358, errs.ErSpGotoInHndlr},
	{"ErTrgAlreadyExists", 1359, errs.ErTrgAlreadyExists},
	{"ErTrgDoesNotExist", 1360, errs.ErTrgDoesNotExist},
	{"ErTrgOnViewOrTempTable", 1361, errs.ErTrgOnViewOrTempTable},
	{"ErTrgCantChangeRow", 1362, errs.ErTrgCantChangeRow},
	{"ErTrgNoSuchRowInTrg", 1363, errs.ErTrgNoSuchRowInTrg},
	{"ErNoDefaultForField", 1364, errs.ErNoDefaultForField},
	{"ErDivisionByZero", 1365, errs.ErDivisionByZero},
	{"ErTruncatedWrongValueForField", 1366, errs.ErTruncatedWrongValueForField},
	{"ErIllegalValueForType", 1367, errs.ErIllegalValueForType},
	{"ErViewNonupdCheck", 1368, errs.ErViewNonupdCheck},
	{"ErViewCheckFailed", 1369, errs.ErViewCheckFailed},
	{"ErProcaccessDeniedError", 1370, errs.ErProcaccessDeniedError},
	{"ErRelayLogFail", 1371, errs.ErRelayLogFail},
	{"ErPasswdLength", 1372, errs.ErPasswdLength},
	{"ErUnknownTargetBinlog", 1373, errs.ErUnknownTargetBinlog},
	{"ErIoErrLogIndexRead", 1374, errs.ErIoErrLogIndexRead},
	{"ErBinlogPurgeProhibited", 1375, errs.ErBinlogPurgeProhibited},
	{"ErFseekFail", 1376, errs.ErFseekFail},
	{"ErBinlogPurgeFatalErr", 1377, errs.ErBinlogPurgeFatalErr},
	{"ErLogInUse", 1378, errs.ErLogInUse},
	{"ErLogPurgeUnknownErr", 1379, errs.ErLogPurgeUnknownErr},
	{"ErRelayLogInit", 1380, errs.ErRelayLogInit},
	{"ErNoBinaryLogging", 1381, errs.ErNoBinaryLogging},
	{"ErReservedSyntax", 1382, errs.ErReservedSyntax},
	{"ErWsasFailed", 1383, errs.ErWsasFailed},
	{"ErDiffGroupsProc", 1384, errs.ErDiffGroupsProc},
	{"ErNoGroupForProc", 1385, errs.ErNoGroupForProc},
	{"ErOrderWithProc", 1386, errs.ErOrderWithProc},
	{"ErLoggingProhibitChangingOf", 1387, errs.ErLoggingProhibitChangingOf},
	{"ErNoFileMapping", 1388, errs.ErNoFileMapping},
	{"ErWrongMagic", 1389, errs.ErWrongMagic},
	{"ErPsManyParam", 1390, errs.ErPsManyParam},
	{"ErKeyPart0", 1391, errs.ErKeyPart0},
	{"ErViewChecksum", 1392, errs.ErViewChecksum},
	{"ErViewMultiupdate", 1393, errs.ErViewMultiupdate},
	{"ErViewNoInsertFieldList", 1394, errs.ErViewNoInsertFieldList},
	{"ErViewDeleteMergeView", 1395, errs.ErViewDeleteMergeView},
	{"ErCannotUser", 1396, errs.ErCannotUser},
	{"ErXaerNota", 1397, errs.ErXaerNota},
	{"ErXaerInval", 1398, errs.ErXaerInval},
	{"ErXaerRmfail", 1399, errs.ErXaerRmfail},
	{"ErXaerOutside", 1400, errs.ErXaerOutside},
	{"ErXaerRmerr", 1401, errs.ErXaerRmerr},
	{"ErXaRbrollback", 1402, errs.ErXaRbrollback},
	{"ErNonexistingProcGrant", 1403, errs.ErNonexistingProcGrant},
	{"ErProcAutoGrantFail", 1404, errs.ErProcAutoGrantFail},
	{"ErProcAutoRevokeFail", 1405, errs.ErProcAutoRevokeFail},
	{"ErDataTooLong", 1406, errs.ErDataTooLong},
	{"ErSpBadSqlstate", 1407, errs.ErSpBadSqlstate},
	{"ErStartup", 1408, errs.ErStartup},
	{"ErLoadFromFixedSizeRowsToVar", 1409, errs.ErLoadFromFixedSizeRowsToVar},
	{"ErCantCreateUserWithGrant", 1410, errs.ErCantCreateUserWithGrant},
	{"ErWrongValueForType", 1411, errs.ErWrongValueForType},
	{"ErTableDefChanged", 1412, errs.ErTableDefChanged},
	{"ErSpDupHandler", 1413, errs.ErSpDupHandler},
	{"ErSpNotVarArg", 1414, errs.ErSpNotVarArg},
	{"ErSpNoRetset", 1415, errs.ErSpNoRetset},
	{"ErCantCreateGeometryObject", 1416, errs.ErCantCreateGeometryObject},
	{"ErFailedRoutineBreakBinlog", 1417, errs.ErFailedRoutineBreakBinlog},
	{"ErBinlogUnsafeRoutine", 1418, errs.ErBinlogUnsafeRoutine},
	{"ErBinlogCreateRoutineNeedSuper", 1419, errs.ErBinlogCreateRoutineNeedSuper},
	{"ErExecStmtWithOpenCursor", 1420, errs.ErExecStmtWithOpenCursor},
	{"ErStmtHasNoOpenCursor", 1421, errs.ErStmtHasNoOpenCursor},
	{"ErCommitNotAllowedInSfOrTrg", 1422, errs.ErCommitNotAllowedInSfOrTrg},
	{"ErNoDefaultForViewField", 1423, errs.ErNoDefaultForViewField},
	{"ErSpNoRecursion", 1424, errs.ErSpNoRecursion},
	{"ErTooBigScale", 1425, errs.ErTooBigScale},
	{"ErTooBigPrecision", 1426, errs.ErTooBigPrecision},
	{"ErMBiggerThanD", 1427, errs.ErMBiggerThanD},
	{"ErWrongLockOfSystemTable", 1428, errs.ErWrongLockOfSystemTable},
	{"ErConnectToForeignDataSource", 1429, errs.ErConnectToForeignDataSource},
	{"ErQueryOnForeignDataSource", 1430, errs.ErQueryOnForeignDataSource},
	{"ErForeignDataSourceDoesntExist", 1431, errs.ErForeignDataSourceDoesntExist},
	{"ErForeignDataStringInvalidCantCreate", 1432, errs.ErForeignDataStringInvalidCantCreate},
	{"ErForeignDataStringInvalid", 1433, errs.ErForeignDataStringInvalid},
	{"ErCantCreateFederatedTable", 1434, errs.ErCantCreateFederatedTable},
	{"ErTrgInWrongSchema", 1435, errs.ErTrgInWrongSchema},
	{"ErStackOverrunNeedMore", 1436, errs.ErStackOverrunNeedMore},
	{"ErTooLongBody", 1437, errs.ErTooLongBody},
	{"ErWarnCantDropDefaultKeycache", 1438, errs.ErWarnCantDropDefaultKeycache},
	{"ErTooBigDisplaywidth", 1439, errs.ErTooBigDisplaywidth},
	{"ErXaerDupid", 1440, errs.ErXaerDupid},
	{"ErDatetimeFunctionOverflow", 1441, errs.ErDatetimeFunctionOverflow},
	{"ErCantUpdateUsedTableInSfOrTrg", 1442, errs.ErCantUpdateUsedTableInSfOrTrg},
	{"ErViewPreventUpdate", 1443, errs.ErViewPreventUpdate},
	{"ErPsNoRecursion", 1444, errs.ErPsNoRecursion},
	{"ErSpCantSetAutocommit", 1445, errs.ErSpCantSetAutocommit},
	{"ErMalformedDefiner", 1446, errs.ErMalformedDefiner},
	{"ErViewFrmNoUser", 1447, errs.ErViewFrmNoUser},
	{"ErViewOtherUser", 1448, errs.ErViewOtherUser},
	{"ErNoSuchUser", 1449, errs.ErNoSuchUser},
	{"ErForbidSchemaChange", 1450, errs.ErForbidSchemaChange},
	{"ErRowIsReferenced2", 1451, errs.ErRowIsReferenced2},
	{"ErNoReferencedRow2", 1452, errs.ErNoReferencedRow2},
	{"ErSpBadVarShadow", 1453, errs.ErSpBadVarShadow},
	{"ErTrgNoDefiner", 1454, errs.ErTrgNoDefiner},
	{"ErOldFileFormat", 1455, errs.ErOldFileFormat},
	{"ErSpRecursionLimit", 1456, errs.ErSpRecursionLimit},
	{"ErSpProcTableCorrupt", 1457, errs.ErSpProcTableCorrupt},
	{"ErSpWrongName", 1458, errs.ErSpWrongName},
	{"ErTableNeedsUpgrade", 1459, errs.ErTableNeedsUpgrade},
	{"ErSpNoAggregate", 1460, errs.ErSpNoAggregate},
	{"ErMaxPreparedStmtCountReached", 1461, errs.ErMaxPreparedStmtCountReached},
	{"ErViewRecursive", 1462, errs.ErViewRecursive},
	{"ErNonGroupingFieldUsed", 1463, errs.ErNonGroupingFieldUsed},
	{"ErTableCantHandleSpkeys", 1464, errs.ErTableCantHandleSpkeys},
	{"ErNoTriggersOnSystemSchema", 1465, errs.ErNoTriggersOnSystemSchema},
	{"ErRemovedSpaces", 1466, errs.ErRemovedSpaces},
	{"ErAutoincReadFailed", 1467, errs.ErAutoincReadFailed},
	{"ErUsername", 1468, errs.ErUsername},
	{"ErHostname", 1469, errs.ErHostname},
	{"ErWrongStringLength", 1470, errs.ErWrongStringLength},
	{"ErNonInsertableTable", 1471, errs.ErNonInsertableTable},
	{"ErAdminWrongMrgTable", 1472, errs.ErAdminWrongMrgTable},
	{"ErTooHighLevelOfNestingForSelect", 1473, errs.ErTooHighLevelOfNestingForSelect},
	{"ErNameBecomesEmpty", 1474, errs.ErNameBecomesEmpty},
	{"ErAmbiguousFieldTerm", 1475, errs.ErAmbiguousFieldTerm},
	{"ErForeignServerExists", 1476, errs.ErForeignServerExists},
	{"ErForeignServerDoesntExist", 1477, errs.ErForeignServerDoesntExist},
	{"ErIllegalHaCreateOption", 1478, errs.ErIllegalHaCreateOption},
	{"ErPartitionRequiresValuesError", 1479, errs.ErPartitionRequiresValuesError},
	{"ErPartitionWrongValuesError", 1480, errs.ErPartitionWrongValuesError},
	{"ErPartitionMaxvalueError", 1481, errs.ErPartitionMaxvalueError},
	{"ErPartitionSubpartitionError", 1482, errs.ErPartitionSubpartitionError},
	{"ErPartitionSubpartMixError", 1483, errs.ErPartitionSubpartMixError},
	{"ErPartitionWrongNoPartError", 1484, errs.ErPartitionWrongNoPartError},
	{"ErPartitionWrongNoSubpartError", 1485, errs.ErPartitionWrongNoSubpartError},
	{"ErWrongExprInPartitionFuncError", 1486, errs.ErWrongExprInPartitionFuncError},
	{"ErNoConstExprInRangeOrListError", 1487, errs.ErNoConstExprInRangeOrListError},
	{"ErFieldNotFoundPartError", 1488, errs.ErFieldNotFoundPartError},
	{"ErListOfFieldsOnlyInHashError", 1489, errs.ErListOfFieldsOnlyInHashError},
	{"ErInconsistentPartitionInfoError", 1490, errs.ErInconsistentPartitionInfoError},
	{"ErPartitionFuncNotAllowedError", 1491, errs.ErPartitionFuncNotAllowedError},
	{"ErPartitionsMustBeDefinedError", 1492, errs.ErPartitionsMustBeDefinedError},
	{"ErRangeNotIncreasingError", 1493, errs.ErRangeNotIncreasingError},
	{"ErInconsistentTypeOfFunctionsError", 1494, errs.ErInconsistentTypeOfFunctionsError},
	{"ErMultipleDefConstInListPartError", 1495, errs.ErMultipleDefConstInListPartError},
	{"ErPartitionEntryError", 1496, errs.ErPartitionEntryError},
	{"ErMixHandlerError", 1497, errs.ErMixHandlerError},
	{"ErPartitionNotDefinedError", 1498, errs.ErPartitionNotDefinedError},
	{"ErTooManyPartitionsError", 1499, errs.ErTooManyPartitionsError},
	{"ErSubpartitionError", 1500, errs.ErSubpartitionError},
	{"ErCantCreateHandlerFile", 1501, errs.ErCantCreateHandlerFile},
	{"ErBlobFieldInPartFuncError", 1502, errs.ErBlobFieldInPartFuncError},
	{"ErUniqueKeyNeedAllFieldsInPf", 1503, errs.ErUniqueKeyNeedAllFieldsInPf},
	{"ErNoPartsError", 1504, errs.ErNoPartsError},
	{"ErPartitionMgmtOnNonpartitioned", 1505, errs.ErPartitionMgmtOnNonpartitioned},
	{"ErForeignKeyOnPartitioned", 1506, errs.ErForeignKeyOnPartitioned},
	{"ErDropPartitionNonExistent", 1507, errs.ErDropPartitionNonExistent},
	{"ErDropLastPartition", 1508, errs.ErDropLastPartition},
	{"ErCoalesceOnlyOnHashPartition", 1509, errs.ErCoalesceOnlyOnHashPartition},
	{"ErReorgHashOnlyOnSameNo", 1510, errs.ErReorgHashOnlyOnSameNo},
	{"ErReorgNoParamError", 1511, errs.ErReorgNoParamError},
	{"ErOnlyOnRangeListPartition", 1512, errs.ErOnlyOnRangeListPartition},
	{"ErAddPartitionSubpartError", 1513, errs.ErAddPartitionSubpartError},
	{"ErAddPartitionNoNewPartition", 1514, errs.ErAddPartitionNoNewPartition},
	{"ErCoalescePartitionNoPartition", 1515, errs.ErCoalescePartitionNoPartition},
	{"ErReorgPartitionNotExist", 1516, errs.ErReorgPartitionNotExist},
	{"ErSameNamePartition", 1517, errs.ErSameNamePartition},
	{"ErNoBinlogError", 1518, errs.ErNoBinlogError},
	{"ErConsecutiveReorgPartitions", 1519, errs.ErConsecutiveReorgPartitions},
	{"ErReorgOutsideRange", 1520, errs.ErReorgOutsideRange},
	{"ErPartitionFunctionFailure", 1521, errs.ErPartitionFunctionFailure},
	{"ErPartStateError", 1522, errs.ErPartStateError},
	{"ErLimitedPartRange", 1523, errs.ErLimitedPartRange},
	{"ErPluginIsNotLoaded", 1524, errs.ErPluginIsNotLoaded},
	{"ErWrongValue", 1525, errs.ErWrongValue},
	{"ErNoPartitionForGivenValue", 1526, errs.ErNoPartitionForGivenValue},
	{"ErFilegroupOptionOnlyOnce", 1527, errs.ErFilegroupOptionOnlyOnce},
	{"ErCreateFilegroupFailed", 1528, errs.ErCreateFilegroupFailed},
	{"ErDropFilegroupFailed", 1529, errs.ErDropFilegroupFailed},
	{"ErTablespaceAutoExtendError", 1530, errs.ErTablespaceAutoExtendError},
	{"ErWrongSizeNumber", 1531, errs.ErWrongSizeNumber},
	{"ErSizeOverflowError", 1532, errs.ErSizeOverflowError},
	{"ErAlterFilegroupFailed", 1533, errs.ErAlterFilegroupFailed},
	{"ErBinlogRowLoggingFailed", 1534, errs.ErBinlogRowLoggingFailed},
	{"ErBinlogRowWrongTableDef", 1535, errs.ErBinlogRowWrongTableDef},
	{"ErBinlogRowRbrToSbr", 1536, errs.ErBinlogRowRbrToSbr},
	{"ErEventAlreadyExists", 1537, errs.ErEventAlreadyExists},
	{"ErEventStoreFailed", 1538, errs.ErEventStoreFailed},
	{"ErEventDoesNotExist", 1539, errs.ErEventDoesNotExist},
	{"ErEventCantAlter", 1540, errs.ErEventCantAlter},
	{"ErEventDropFailed", 1541, errs.ErEventDropFailed},
	{"ErEventIntervalNotPositiveOrTooBig", 1542, errs.ErEventIntervalNotPositiveOrTooBig},
	{"ErEventEndsBeforeStarts", 1543, errs.ErEventEndsBeforeStarts},
	{"ErEventExecTimeInThePast", 1544, errs.ErEventExecTimeInThePast},
	{"ErEventOpenTableFailed", 1545, errs.ErEventOpenTableFailed},
	{"ErEventNeitherMExprNorMAt", 1546, errs.ErEventNeitherMExprNorMAt},
	{"ErObsoleteColCountDoesntMatchCorrupted", 1547, errs.ErObsoleteColCountDoesntMatchCorrupted},
	{"ErObsoleteCannotLoadFromTable", 1548, errs.ErObsoleteCannotLoadFromTable},
	{"ErEventCannotDelete", 1549, errs.ErEventCannotDelete},
	{"ErEventCompileError", 1550, errs.ErEventCompileError},
	{"ErEventSameName", 1551, errs.ErEventSameName},
	{"ErEventDataTooLong", 1552, errs.ErEventDataTooLong},
	{"ErDropIndexFk", 1553, errs.ErDropIndexFk},
	{"ErWarnDeprecatedSyntaxWithVer", 1554, errs.ErWarnDeprecatedSyntaxWithVer},
	{"ErCantWriteLockLogTable", 1555, errs.ErCantWriteLockLogTable},
	{"ErCantLockLogTable", 1556, errs.ErCantLockLogTable},
	{"ErForeignDuplicateKeyOldUnused", 1557, errs.ErForeignDuplicateKeyOldUnused},
	{"ErColCountDoesntMatchPleaseUpdate", 1558, errs.ErColCountDoesntMatchPleaseUpdate},
	{"ErTempTablePreventsSwitchOutOfRbr", 1559, errs.ErTempTablePreventsSwitchOutOfRbr},
	{"ErStoredFunctionPreventsSwitchBinlogFormat", 1560, errs.ErStoredFunctionPreventsSwitchBinlogFormat},
	{"ErNdbCantSwitchBinlogFormat", 1561, errs.ErNdbCantSwitchBinlogFormat},
	{"ErPartitionNoTemporary", 1562, errs.ErPartitionNoTemporary},
	{"ErPartitionConstDomainError", 1563, errs.ErPartitionConstDomainError},
	{"ErPartitionFunctionIsNotAllowed", 1564, errs.ErPartitionFunctionIsNotAllowed},
	{"ErDdlLogError", 1565, errs.ErDdlLogError},
	{"ErNullInValuesLessThan", 1566, errs.ErNullInValuesLessThan},
	{"ErWrongPartitionName", 1567, errs.ErWrongPartitionName},
	{"ErCantChangeTxCharacteristics", 1568, errs.ErCantChangeTxCharacteristics},
	{"ErDupEntryAutoincrementCase", 1569, errs.ErDupEntryAutoincrementCase},
	{"ErEventModifyQueueError", 1570, errs.ErEventModifyQueueError},
	{"ErEventSetVarError", 1571, errs.ErEventSetVarError},
	{"ErPartitionMergeError", 1572, errs.ErPartitionMergeError},
	{"ErCantActivateLog", 1573, errs.ErCantActivateLog},
	{"ErRbrNotAvailable", 1574, errs.ErRbrNotAvailable},
	{"ErBase64DecodeError", 1575, errs.ErBase64DecodeError},
	{"ErEventRecursionForbidden", 1576, errs.ErEventRecursionForbidden},
	{"ErEventsDbError", 1577, errs.ErEventsDbError},
	{"ErOnlyIntegersAllowed", 1578, errs.ErOnlyIntegersAllowed},
	{"ErUnsuportedLogEngine", 1579, errs.ErUnsuportedLogEngine},
	{"ErBadLogStatement", 1580, errs.ErBadLogStatement},
	{"ErCantRenameLogTable", 1581, errs.ErCantRenameLogTable},
	{"ErWrongParamcountToNativeFct", 1582, errs.ErWrongParamcountToNativeFct},
	{"ErWrongParametersToNativeFct", 1583, errs.ErWrongParametersToNativeFct},
	{"ErWrongParametersToStoredFct", 1584, errs.ErWrongParametersToStoredFct},
	{"ErNativeFctNameCollision", 1585, errs.ErNativeFctNameCollision},
	{"ErDupEntryWithKeyName", 1586, errs.ErDupEntryWithKeyName},
	{"ErBinlogPurgeEmfile", 1587, errs.ErBinlogPurgeEmfile},
	{"ErEventCannotCreateInThePast", 1588, errs.ErEventCannotCreateInThePast},
	{"ErEventCannotAlterInThePast", 1589, errs.ErEventCannotAlterInThePast},
	{"ErSlaveIncident", 1590, errs.ErSlaveIncident},
	{"ErNoPartitionForGivenValueSilent", 1591, errs.ErNoPartitionForGivenValueSilent},
	{"ErBinlogUnsafeStatement", 1592, errs.ErBinlogUnsafeStatement},
	{"ErSlaveFatalError", 1593, errs.ErSlaveFatalError},
	{"ErSlaveRelayLogReadFailure", 1594, errs.ErSlaveRelayLogReadFailure},
	{"ErSlaveRelayLogWriteFailure", 1595, errs.ErSlaveRelayLogWriteFailure},
	{"ErSlaveCreateEventFailure", 1596, errs.ErSlaveCreateEventFailure},
	{"ErSlaveMasterComFailure", 1597, errs.ErSlaveMasterComFailure},
	{"ErBinlogLoggingImpossible", 1598, errs.ErBinlogLoggingImpossible},
	{"ErViewNoCreationCtx", 1599, errs.ErViewNoCreationCtx},
	{"ErViewInvalidCreationCtx", 1600, errs.ErViewInvalidCreationCtx},
	{"ErSrInvalidCreationCtx", 1601, errs.ErSrInvalidCreationCtx},
	{"ErTrgCorruptedFile", 1602, errs.ErTrgCorruptedFile},
	{"ErTrgNoCreationCtx", 1603, errs.ErTrgNoCreationCtx},
	{"ErTrgInvalidCreationCtx", 1604, errs.ErTrgInvalidCreationCtx},
	{"ErEventInvalidCreationCtx", 1605, errs.ErEventInvalidCreationCtx},
	{"ErTrgCantOpenTable", 1606, errs.ErTrgCantOpenTable},
	{"ErCantCreateSroutine", 1607, errs.ErCantCreateSroutine},
	{"ErNeverUsed", 1608, errs.ErNeverUsed},
	{"ErNoFormatDescriptionEventBeforeBinlogStatement", 1609, errs.ErNoFormatDescriptionEventBeforeBinlogStatement},
	{"ErSlaveCorruptEvent", 1610, errs.ErSlaveCorruptEvent},
	{"ErLoadDataInvalidColumnUnused", 1611, errs.ErLoadDataInvalidColumnUnused},
	{"ErLogPurgeNoFile", 1612, errs.ErLogPurgeNoFile},
	{"ErXaRbtimeout", 1613, errs.ErXaRbtimeout},
	{"ErXaRbdeadlock", 1614, errs.ErXaRbdeadlock},
	{"ErNeedReprepare", 1615, errs.ErNeedReprepare},
	{"ErDelayedNotSupported", 1616, errs.ErDelayedNotSupported},
	{"WARNNoMasterInfo", 1617, errs.WARNNoMasterInfo},
	{"WARNOptionIgnored", 1618, errs.WARNOptionIgnored},
	{"ErPluginDeleteBuiltin", 1619, errs.ErPluginDeleteBuiltin},
	{"WARNPluginBusy", 1620, errs.WARNPluginBusy},
	{"ErVariableIsReadonly", 1621, errs.ErVariableIsReadonly},
	{"ErWarnEngineTransactionRollback", 1622, errs.ErWarnEngineTransactionRollback},
	{"ErSlaveHeartbeatFailure", 1623, errs.ErSlaveHeartbeatFailure},
	{"ErSlaveHeartbeatValueOutOfRange", 1624, errs.ErSlaveHeartbeatValueOutOfRange},
	{"ErNdbReplicationSchemaError", 1625, errs.ErNdbReplicationSchemaError},
	{"ErConflictFnParseError", 1626, errs.ErConflictFnParseError},
	{"ErExceptionsWriteError", 1627, errs.ErExceptionsWriteError},
	{"ErTooLongTableComment", 1628, errs.ErTooLongTableComment},
	{"ErTooLongFieldComment", 1629, errs.ErTooLongFieldComment},
	{"ErFuncInexistentNameCollision", 1630, errs.ErFuncInexistentNameCollision},
	{"ErDatabaseName", 1631, errs.ErDatabaseName},
	{"ErTableName", 1632, errs.ErTableName},
	{"ErPartitionName", 1633, errs.ErPartitionName},
	{"ErSubpartitionName", 1634, errs.ErSubpartitionName},
	{"ErTemporaryName", 1635, errs.ErTemporaryName},
	{"ErRenamedName", 1636, errs.ErRenamedName},
	{"ErTooManyConcurrentTrxs", 1637, errs.ErTooManyConcurrentTrxs},
	{"WarnNonASCIISeparatorNotImplemented", 1638, errs.WarnNonASCIISeparatorNotImplemented},
	{"ErDebugSyncTimeout", 1639, errs.ErDebugSyncTimeout},
	{"ErDebugSyncHitLimit", 1640, errs.ErDebugSyncHitLimit},
	{"ErDupSignalSet", 1641, errs.ErDupSignalSet},
	{"ErSignalWarn", 1642, errs.ErSignalWarn},
	{"ErSignalNotFound", 1643, errs.ErSignalNotFound},
	{"ErSignalException", 1644, errs.ErSignalException},
	{"ErResignalWithoutActiveHandler", 1645, errs.ErResignalWithoutActiveHandler},
	{"ErSignalBadConditionType", 1646, errs.ErSignalBadConditionType},
	{"WarnCondItemTruncated", 1647, errs.WarnCondItemTruncated},
	{"ErCondItemTooLong", 1648, errs.ErCondItemTooLong},
	{"ErUnknownLocale", 1649, errs.ErUnknownLocale},
	{"ErSlaveIgnoreServerIds", 1650, errs.ErSlaveIgnoreServerIds},
	{"ErQueryCacheDisabled", 1651, errs.ErQueryCacheDisabled},
	{"ErSameNamePartitionField", 1652, errs.ErSameNamePartitionField},
	{"ErPartitionColumnListError", 1653, errs.ErPartitionColumnListError},
	{"ErWrongTypeColumnValueError", 1654, errs.ErWrongTypeColumnValueError},
	{"ErTooManyPartitionFuncFieldsError", 1655, errs.ErTooManyPartitionFuncFieldsError},
	{"ErMaxvalueInValuesIn", 1656, errs.ErMaxvalueInValuesIn},
	{"ErTooManyValuesError", 1657, errs.ErTooManyValuesError},
	{"ErRowSinglePartitionFieldError", 1658, errs.ErRowSinglePartitionFieldError},
	{"ErFieldTypeNotAllowedAsPartitionField", 1659, errs.ErFieldTypeNotAllowedAsPartitionField},
	{"ErPartitionFieldsTooLong", 1660, errs.ErPartitionFieldsTooLong},
	{"ErBinlogRowEngineAndStmtEngine", 1661, errs.ErBinlogRowEngineAndStmtEngine},
	{"ErBinlogRowModeAndStmtEngine", 1662, errs.ErBinlogRowModeAndStmtEngine},
	{"ErBinlogUnsafeAndStmtEngine", 1663, errs.ErBinlogUnsafeAndStmtEngine},
	{"ErBinlogRowInjectionAndStmtEngine", 1664, errs.ErBinlogRowInjectionAndStmtEngine},
	{"ErBinlogStmtModeAndRowEngine", 1665, errs.ErBinlogStmtModeAndRowEngine},
	{"ErBinlogRowInjectionAndStmtMode", 1666, errs.ErBinlogRowInjectionAndStmtMode},
	{"ErBinlogMultipleEnginesAndSelfLoggingEngine", 1667, errs.ErBinlogMultipleEnginesAndSelfLoggingEngine},
	{"ErBinlogUnsafeLimit", 1668, errs.ErBinlogUnsafeLimit},
	{"ErUnused4", 1669, errs.ErUnused4},
	{"ErBinlogUnsafeSystemTable", 1670, errs.ErBinlogUnsafeSystemTable},
	{"ErBinlogUnsafeAutoincColumns", 1671, errs.ErBinlogUnsafeAutoincColumns},
	{"ErBinlogUnsafeUdf", 1672, errs.ErBinlogUnsafeUdf},
	{"ErBinlogUnsafeSystemVariable", 1673, errs.ErBinlogUnsafeSystemVariable},
	{"ErBinlogUnsafeSystemFunction", 1674, errs.ErBinlogUnsafeSystemFunction},
	{"ErBinlogUnsafeNontransAfterTrans", 1675, errs.ErBinlogUnsafeNontransAfterTrans},
	{"ErMessageAndStatement", 1676, errs.ErMessageAndStatement},
	{"ErSlaveConversionFailed", 1677, errs.ErSlaveConversionFailed},
	{"ErSlaveCantCreateConversion", 1678, errs.ErSlaveCantCreateConversion},
	{"ErInsideTransactionPreventsSwitchBinlogFormat", 1679, errs.ErInsideTransactionPreventsSwitchBinlogFormat},
	{"ErPathLength", 1680, errs.ErPathLength},
	{"ErWarnDeprecatedSyntaxNoReplacement", 1681, errs.ErWarnDeprecatedSyntaxNoReplacement},
	{"ErWrongNativeTableStructure", 1682, errs.ErWrongNativeTableStructure},
	{"ErWrongPerfschemaUsage", 1683, errs.ErWrongPerfschemaUsage},
	{"ErWarnISSkippedTable", 1684, errs.ErWarnISSkippedTable},
	{"ErInsideTransactionPreventsSwitchBinlogDirect", 1685, errs.ErInsideTransactionPreventsSwitchBinlogDirect},
	{"ErStoredFunctionPreventsSwitchBinlogDirect", 1686, errs.ErStoredFunctionPreventsSwitchBinlogDirect},
	{"ErSpatialMustHaveGeomCol", 1687, errs.ErSpatialMustHaveGeomCol},
	{"ErTooLongIndexComment", 1688, errs.ErTooLongIndexComment},
	{"ErLockAborted", 1689, errs.ErLockAborted},
	{"ErDataOutOfRange", 1690, errs.ErDataOutOfRange},
	{"ErWrongSpvarTypeInLimit", 1691, errs.ErWrongSpvarTypeInLimit},
	{"ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine", 1692, errs.ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine},
	{"ErBinlogUnsafeMixedStatement", 1693, errs.ErBinlogUnsafeMixedStatement},
	{"ErInsideTransactionPreventsSwitchSQLLogBin", 1694, errs.ErInsideTransactionPreventsSwitchSQLLogBin},
	{"ErStoredFunctionPreventsSwitchSQLLogBin", 1695, errs.ErStoredFunctionPreventsSwitchSQLLogBin},
	{"ErFailedReadFromParFile", 1696, errs.ErFailedReadFromParFile},
	{"ErValuesIsNotIntTypeError", 1697, errs.ErValuesIsNotIntTypeError},
	{"ErAccessDeniedNoPasswordError", 1698, errs.ErAccessDeniedNoPasswordError},
	{"ErSetPasswordAuthPlugin", 1699, errs.ErSetPasswordAuthPlugin},
	{"ErGrantPluginUserExists", 1700, errs.ErGrantPluginUserExists},
	{"ErTruncateIllegalFk", 1701, errs.ErTruncateIllegalFk},
	{"ErPluginIsPermanent", 1702, errs.ErPluginIsPermanent},
	{"ErSlaveHeartbeatValueOutOfRangeMin", 1703, errs.ErSlaveHeartbeatValueOutOfRangeMin},
	{"ErSlaveHeartbeatValueOutOfRangeMax", 1704, errs.ErSlaveHeartbeatValueOutOfRangeMax},
	{"ErStmtCacheFull", 1705, errs.ErStmtCacheFull},
	{"ErMultiUpdateKeyConflict", 1706, errs.ErMultiUpdateKeyConflict},
	{"ErTableNeedsRebuild", 1707, errs.ErTableNeedsRebuild},
	{"WARNOptionBelowLimit", 1708, errs.WARNOptionBelowLimit},
	{"ErIndexColumnTooLong", 1709, errs.ErIndexColumnTooLong},
	{"ErErrorInTriggerBody", 1710, errs.ErErrorInTriggerBody},
	{"ErErrorInUnknownTriggerBody", 1711, errs.ErErrorInUnknownTriggerBody},
	{"ErIndexCorrupt", 1712, errs.ErIndexCorrupt},
	{"ErUndoRecordTooBig", 1713, errs.ErUndoRecordTooBig},
	{"ErBinlogUnsafeInsertIgnoreSelect", 1714, errs.ErBinlogUnsafeInsertIgnoreSelect},
	{"ErBinlogUnsafeInsertSelectUpdate", 1715, errs.ErBinlogUnsafeInsertSelectUpdate},
	{"ErBinlogUnsafeReplaceSelect", 1716, errs.ErBinlogUnsafeReplaceSelect},
	{"ErBinlogUnsafeCreateIgnoreSelect", 1717, errs.ErBinlogUnsafeCreateIgnoreSelect},
	{"ErBinlogUnsafeCreateReplaceSelect", 1718, errs.ErBinlogUnsafeCreateReplaceSelect},
	{"ErBinlogUnsafeUpdateIgnore", 1719, errs.ErBinlogUnsafeUpdateIgnore},
	{"ErPluginNoUninstall", 1720, errs.ErPluginNoUninstall},
	{"ErPluginNoInstall", 1721, errs.ErPluginNoInstall},
	{"ErBinlogUnsafeWriteAutoincSelect", 1722, errs.ErBinlogUnsafeWriteAutoincSelect},
	{"ErBinlogUnsafeCreateSelectAutoinc", 1723, errs.ErBinlogUnsafeCreateSelectAutoinc},
	{"ErBinlogUnsafeInsertTwoKeys", 1724, errs.ErBinlogUnsafeInsertTwoKeys},
	{"ErTableInFkCheck", 1725, errs.ErTableInFkCheck},
	{"ErUnsupportedEngine", 1726, errs.ErUnsupportedEngine},
	{"ErBinlogUnsafeAutoincNotFirst", 1727, errs.ErBinlogUnsafeAutoincNotFirst},
	{"ErCannotLoadFromTableV2", 1728, errs.ErCannotLoadFromTableV2},
	{"ErMasterDelayValueOutOfRange", 1729, errs.ErMasterDelayValueOutOfRange},
	{"ErOnlyFdAndRbrEventsAllowedInBinlogStatement", 1730, errs.ErOnlyFdAndRbrEventsAllowedInBinlogStatement},
	{"ErPartitionExchangeDifferentOption", 1731, errs.ErPartitionExchangeDifferentOption},
	{"ErPartitionExchangePartTable", 1732, errs.ErPartitionExchangePartTable},
	{"ErPartitionExchangeTempTable", 1733, errs.ErPartitionExchangeTempTable},
	{"ErPartitionInsteadOfSubpartition", 1734, errs.ErPartitionInsteadOfSubpartition},
	{"ErUnknownPartition", 1735, errs.ErUnknownPartition},
	{"ErTablesDifferentMetadata", 1736, errs.ErTablesDifferentMetadata},
	{"ErRowDoesNotMatchPartition", 1737, errs.ErRowDoesNotMatchPartition},
	{"ErBinlogCacheSizeGreaterThanMax", 1738, errs.ErBinlogCacheSizeGreaterThanMax},
	{"ErWarnIndexNotApplicable", 1739, errs.ErWarnIndexNotApplicable},
	{"ErPartitionExchangeForeignKey", 1740, errs.ErPartitionExchangeForeignKey},
	{"ErNoSuchKeyValue", 1741, errs.ErNoSuchKeyValue},
	{"ErRplInfoDataTooLong", 1742, errs.ErRplInfoDataTooLong},
	{"ErNetworkReadEventChecksumFailure", 1743, errs.ErNetworkReadEventChecksumFailure},
	{"ErBinlogReadEventChecksumFailure", 1744, errs.ErBinlogReadEventChecksumFailure},
	{"ErBinlogStmtCacheSizeGreaterThanMax", 1745, errs.ErBinlogStmtCacheSizeGreaterThanMax},
	{"ErCantUpdateTableInCreateTableSelect", 1746, errs.ErCantUpdateTableInCreateTableSelect},
	{"ErPartitionClauseOnNonpartitioned", 1747, errs.ErPartitionClauseOnNonpartitioned},
	{"ErRowDoesNotMatchGivenPartitionSet", 1748, errs.ErRowDoesNotMatchGivenPartitionSet},
	{"ErNoSuchPartitionUnused", 1749, errs.ErNoSuchPartitionUnused},
	{"ErChangeRplInfoRepositoryFailure", 1750, errs.ErChangeRplInfoRepositoryFailure},
	{"ErWarningNotCompleteRollbackWithCreatedTempTable", 1751, errs.ErWarningNotCompleteRollbackWithCreatedTempTable},
	{"ErWarningNotCompleteRollbackWithDroppedTempTable", 1752, errs.ErWarningNotCompleteRollbackWithDroppedTempTable},
	{"ErMtsFeatureIsNotSupported", 1753, errs.ErMtsFeatureIsNotSupported},
	{"ErMtsUpdatedDbsGreaterMax", 1754, errs.ErMtsUpdatedDbsGreaterMax},
	{"ErMtsCantParallel", 1755, errs.ErMtsCantParallel},
	{"ErMtsInconsistentData", 1756, errs.ErMtsInconsistentData},
	{"ErFulltextNotSupportedWithPartitioning", 1757, errs.ErFulltextNotSupportedWithPartitioning},
	{"ErDaInvalidConditionNumber", 1758, errs.ErDaInvalidConditionNumber},
	{"ErInsecurePlainText", 1759, errs.ErInsecurePlainText},
	{"ErInsecureChangeMaster", 1760, errs.ErInsecureChangeMaster},
	{"ErForeignDuplicateKeyWithChildInfo", 1761, errs.ErForeignDuplicateKeyWithChildInfo},
	{"ErForeignDuplicateKeyWithoutChildInfo", 1762, errs.ErForeignDuplicateKeyWithoutChildInfo},
	{"ErSqlthreadWithSecureSlave", 1763, errs.ErSqlthreadWithSecureSlave},
	{"ErTableHasNoFt", 1764, errs.ErTableHasNoFt},
	{"ErVariableNotSettableInSfOrTrigger", 1765, errs.ErVariableNotSettableInSfOrTrigger},
	{"ErVariableNotSettableInTransaction", 1766, errs.ErVariableNotSettableInTransaction},
	{"ErGTIDNextIsNotInGTIDNextList", 1767, errs.ErGTIDNextIsNotInGTIDNextList},
	{"ErCantChangeGTIDNextInTransaction", 1768, errs.ErCantChangeGTIDNextInTransaction},
	{"ErSetStatementCannotInvokeFunction", 1769, errs.ErSetStatementCannotInvokeFunction},
	{"ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull", 1770, errs.ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull},
	{"ErSkippingLoggedTransaction", 1771, errs.ErSkippingLoggedTransaction},
	{"ErMalformedGTIDSetSpecification", 1772, errs.ErMalformedGTIDSetSpecification},
	{"ErMalformedGTIDSetEncoding", 1773, errs.ErMalformedGTIDSetEncoding},
	{"ErMalformedGTIDSpecification", 1774, errs.ErMalformedGTIDSpecification},
	{"ErGnoExhausted", 1775, errs.ErGnoExhausted},
	{"ErBadSlaveAutoPosition", 1776, errs.ErBadSlaveAutoPosition},
	{"ErAutoPositionRequiresGTIDModeNotOff", 1777, errs.ErAutoPositionRequiresGTIDModeNotOff},
	{"ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet", 1778, errs.ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet},
	{"ErGTIDModeOnRequiresEnforceGTIDConsistencyOn", 1779, errs.ErGTIDModeOnRequiresEnforceGTIDConsistencyOn},
	{"ErGTIDModeRequiresBinlog", 1780, errs.ErGTIDModeRequiresBinlog},
	{"ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff", 1781, errs.ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff},
	{"ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn", 1782, errs.ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn},
	{"ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff", 1783, errs.ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff},
	{"ErFoundGTIDEventWhenGTIDModeIsOffUnused", 1784, errs.ErFoundGTIDEventWhenGTIDModeIsOffUnused},
	{"ErGTIDUnsafeNonTransactionalTable", 1785, errs.ErGTIDUnsafeNonTransactionalTable},
	{"ErGTIDUnsafeCreateSelect", 1786, errs.ErGTIDUnsafeCreateSelect},
	{"ErGTIDUnsafeCreateDropTemporaryTableInTransaction", 1787, errs.ErGTIDUnsafeCreateDropTemporaryTableInTransaction},
	{"ErGTIDModeCanOnlyChangeOneStepAtATime", 1788, errs.ErGTIDModeCanOnlyChangeOneStepAtATime},
	{"ErMasterHasPurgedRequiredGTIDs", 1789, errs.ErMasterHasPurgedRequiredGTIDs},
	{"ErCantSetGTIDNextWhenOwningGTID", 1790, errs.ErCantSetGTIDNextWhenOwningGTID},
	{"ErUnknownExplainFormat", 1791, errs.ErUnknownExplainFormat},
	{"ErCantExecuteInReadOnlyTransaction", 1792, errs.ErCantExecuteInReadOnlyTransaction},
	{"ErTooLongTablePartitionComment", 1793, errs.ErTooLongTablePartitionComment},
	{"ErSlaveConfiguration", 1794, errs.ErSlaveConfiguration},
	{"ErInnodbFtLimit", 1795, errs.ErInnodbFtLimit},
	{"ErInnodbNoFtTempTable", 1796, errs.ErInnodbNoFtTempTable},
	{"ErInnodbFtWrongDocidColumn", 1797, errs.ErInnodbFtWrongDocidColumn},
	{"ErInnodbFtWrongDocidIndex", 1798, errs.ErInnodbFtWrongDocidIndex},
	{"ErInnodbOnlineLogTooBig", 1799, errs.ErInnodbOnlineLogTooBig},
	{"ErUnknownAlterAlgorithm", 1800, errs.ErUnknownAlterAlgorithm},
	{"ErUnknownAlterLock", 1801, errs.ErUnknownAlterLock},
	{"ErMtsChangeMasterCantRunWithGaps", 1802, errs.ErMtsChangeMasterCantRunWithGaps},
	{"ErMtsRecoveryFailure", 1803, errs.ErMtsRecoveryFailure},
	{"ErMtsResetWorkers", 1804, errs.ErMtsResetWorkers},
	{"ErColCountDoesntMatchCorruptedV2", 1805, errs.ErColCountDoesntMatchCorruptedV2},
	{"ErSlaveSilentRetryTransaction", 1806, errs.ErSlaveSilentRetryTransaction},
	{"ErDiscardFkChecksRunning", 1807, errs.ErDiscardFkChecksRunning},
	{"ErTableSchemaMismatch", 1808, errs.ErTableSchemaMismatch},
	{"ErTableInSystemTablespace", 1809, errs.ErTableInSystemTablespace},
	{"ErIoReadError", 1810, errs.ErIoReadError},
	{"ErIoWriteError", 1811, errs.ErIoWriteError},
	{"ErTablespaceMissing", 1812, errs.ErTablespaceMissing},
	{"ErTablespaceExists", 1813, errs.ErTablespaceExists},
	{"ErTablespaceDiscarded", 1814, errs.ErTablespaceDiscarded},
	{"ErInternalError", 1815, errs.ErInternalError},
	{"ErInnodbImportError", 1816, errs.ErInnodbImportError},
	{"ErInnodbIndexCorrupt", 1817, errs.ErInnodbIndexCorrupt},
	{"ErInvalidYearColumnLength", 1818, errs.ErInvalidYearColumnLength},
	{"ErNotValidPassword", 1819, errs.ErNotValidPassword},
	{"ErMustChangePassword", 1820, errs.ErMustChangePassword},
	{"ErFkNoIndexChild", 1821, errs.ErFkNoIndexChild},
	{"ErFkNoIndexParent", 1822, errs.ErFkNoIndexParent},
	{"ErFkFailAddSystem", 1823, errs.ErFkFailAddSystem},
	{"ErFkCannotOpenParent", 1824, errs.ErFkCannotOpenParent},
	{"ErFkIncorrectOption", 1825, errs.ErFkIncorrectOption},
	{"ErFkDupName", 1826, errs.ErFkDupName},
	{"ErPasswordFormat", 1827, errs.ErPasswordFormat},
	{"ErFkColumnCannotDrop", 1828, errs.ErFkColumnCannotDrop},
	{"ErFkColumnCannotDropChild", 1829, errs.ErFkColumnCannotDropChild},
	{"ErFkColumnNotNull", 1830, errs.ErFkColumnNotNull},
	{"ErDupIndex", 1831, errs.ErDupIndex},
	{"ErFkColumnCannotChange", 1832, errs.ErFkColumnCannotChange},
	{"ErFkColumnCannotChangeChild", 1833, errs.ErFkColumnCannotChangeChild},
	{"ErUnused5", 1834, errs.ErUnused5},
	{"ErMalformedPacket", 1835, errs.ErMalformedPacket},
	{"ErReadOnlyMode", 1836, errs.ErReadOnlyMode},
	{"ErGTIDNextTypeUndefinedGroup", 1837, errs.ErGTIDNextTypeUndefinedGroup},
	{"ErVariableNotSettableInSp", 1838, errs.ErVariableNotSettableInSp},
	{"ErCantSetGTIDPurgedWhenGTIDModeIsOff", 1839, errs.ErCantSetGTIDPurgedWhenGTIDModeIsOff},
	{"ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty", 1840, errs.ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty},
	{"ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty", 1841, errs.ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty},
	{"ErGTIDPurgedWasChanged", 1842, errs.ErGTIDPurgedWasChanged},
	{"ErGTIDExecutedWasChanged", 1843, errs.ErGTIDExecutedWasChanged},
	{"ErBinlogStmtModeAndNoReplTables", 1844, errs.ErBinlogStmtModeAndNoReplTables},
	{"ErAlterOperationNotSupported", 1845, errs.ErAlterOperationNotSupported},
	{"ErAlterOperationNotSupportedReason", 1846, errs.ErAlterOperationNotSupportedReason},
	{"ErAlterOperationNotSupportedReasonCopy", 1847, errs.ErAlterOperationNotSupportedReasonCopy},
	{"ErAlterOperationNotSupportedReasonPartition", 1848, errs.ErAlterOperationNotSupportedReasonPartition},
	{"ErAlterOperationNotSupportedReasonFkRename", 1849, errs.ErAlterOperationNotSupportedReasonFkRename},
	{"ErAlterOperationNotSupportedReasonColumnType", 1850, errs.ErAlterOperationNotSupportedReasonColumnType},
	{"ErAlterOperationNotSupportedReasonFkCheck", 1851, errs.ErAlterOperationNotSupportedReasonFkCheck},
	{"ErUnused6", 1852, errs.ErUnused6},
	{"ErAlterOperationNotSupportedReasonNopk", 1853, errs.ErAlterOperationNotSupportedReasonNopk},
	{"ErAlterOperationNotSupportedReasonAutoinc", 1854, errs.ErAlterOperationNotSupportedReasonAutoinc},
	{"ErAlterOperationNotSupportedReasonHiddenFts", 1855, errs.ErAlterOperationNotSupportedReasonHiddenFts},
	{"ErAlterOperationNotSupportedReasonChangeFts", 1856, errs.ErAlterOperationNotSupportedReasonChangeFts},
	{"ErAlterOperationNotSupportedReasonFts", 1857, errs.ErAlterOperationNotSupportedReasonFts},
	{"ErSQLSlaveSkipCounterNotSettableInGTIDMode", 1858, errs.ErSQLSlaveSkipCounterNotSettableInGTIDMode},
	{"ErDupUnknownInIndex", 1859, errs.ErDupUnknownInIndex},
	{"ErIdentCausesTooLongPath", 1860, errs.ErIdentCausesTooLongPath},
	{"ErAlterOperationNotSupportedReasonNotNull", 1861, errs.ErAlterOperationNotSupportedReasonNotNull},
	{"ErMustChangePasswordLogin", 1862, errs.ErMustChangePasswordLogin},
	{"ErRowInWrongPartition", 1863, errs.ErRowInWrongPartition},
	{"ErMtsEventBiggerPendingJobsSizeMax", 1864, errs.ErMtsEventBiggerPendingJobsSizeMax},
	{"ErInnodbNoFtUsesParser", 1865, errs.ErInnodbNoFtUsesParser},
	{"ErBinlogLogicalCorruption", 1866, errs.ErBinlogLogicalCorruption},
	{"ErWarnPurgeLogInUse", 1867, errs.ErWarnPurgeLogInUse},
	{"ErWarnPurgeLogIsActive", 1868, errs.ErWarnPurgeLogIsActive},
	{"ErAutoIncrementConflict", 1869, errs.ErAutoIncrementConflict},
	{"WARNOnBlockholeInRbr", 1870, errs.WARNOnBlockholeInRbr},
	{"ErSlaveMiInitRepository", 1871, errs.ErSlaveMiInitRepository},
	{"ErSlaveRliInitRepository", 1872, errs.ErSlaveRliInitRepository},
	{"ErAccessDeniedChangeUserError", 1873, errs.ErAccessDeniedChangeUserError},
	{"ErInnodbReadOnly", 1874, errs.ErInnodbReadOnly},
	{"ErStopSlaveSQLThreadTimeout", 1875, errs.ErStopSlaveSQLThreadTimeout},
	{"ErStopSlaveIoThreadTimeout", 1876, errs.ErStopSlaveIoThreadTimeout},
	{"ErTableCorrupt", 1877, errs.ErTableCorrupt},
	{"ErTempFileWriteFailure", 1878, errs.ErTempFileWriteFailure},
	{"ErInnodbFtAuxNotHexID", 1879, errs.ErInnodbFtAuxNotHexID},
	{"ErOldTemporalsUpgraded", 1880, errs.ErOldTemporalsUpgraded},
	{"ErInnodbForcedRecovery", 1881, errs.ErInnodbForcedRecovery},
	{"ErAesInvalidIv", 1882, errs.ErAesInvalidIv},
	{"ErPluginCannotBeUninstalled", 1883, errs.ErPluginCannotBeUninstalled},
	{"ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup", 1884, errs.ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup},
	{"ErSlaveHasMoreGTIDsThanMaster", 1885, errs.ErSlaveHasMoreGTIDsThanMaster},
	{"ErFileCorrupt", 3000, errs.ErFileCorrupt},
	{"ErErrorOnMaster", 3001, errs.ErErrorOnMaster},
	{"ErInconsistentError", 3002, errs.ErInconsistentError},
	{"ErStorageEngineNotLoaded", 3003, errs.ErStorageEngineNotLoaded},
	{"ErGetStackedDaWithoutActiveHandler", 3004, errs.ErGetStackedDaWithoutActiveHandler},
	{"ErWarnLegacySyntaxConverted", 3005, errs.ErWarnLegacySyntaxConverted},
	{"ErBinlogUnsafeFulltextPlugin", 3006, errs.ErBinlogUnsafeFulltextPlugin},
	{"ErCannotDiscardTemporaryTable", 3007, errs.ErCannotDiscardTemporaryTable},
	{"ErFkDepthExceeded", 3008, errs.ErFkDepthExceeded},
	{"ErColCountDoesntMatchPleaseUpdateV2", 3009, errs.ErColCountDoesntMatchPleaseUpdateV2},
	{"ErWarnTriggerDoesntHaveCreated", 3010, errs.ErWarnTriggerDoesntHaveCreated},
	{"ErReferencedTrgDoesNotExist", 3011, errs.ErReferencedTrgDoesNotExist},
	{"ErExplainNotSupported", 3012, errs.ErExplainNotSupported},
	{"ErInvalidFieldSize", 3013, errs.ErInvalidFieldSize},
	{"ErMissingHaCreateOption", 3014, errs.ErMissingHaCreateOption},
	{"ErEngineOutOfMemory", 3015, errs.ErEngineOutOfMemory},
	{"ErPasswordExpireAnonymousUser", 3016, errs.ErPasswordExpireAnonymousUser},
	{"ErSlaveSQLThreadMustStop", 3017, errs.ErSlaveSQLThreadMustStop},
	{"ErNoFtMaterializedSubquery", 3018, errs.ErNoFtMaterializedSubquery},
	{"ErInnodbUndoLogFull", 3019, errs.ErInnodbUndoLogFull},
	{"ErInvalidArgumentForLogarithm", 3020, errs.ErInvalidArgumentForLogarithm},
	{"ErSlaveChannelIoThreadMustStop", 3021, errs.ErSlaveChannelIoThreadMustStop},
	{"ErWarnOpenTempTablesMustBeZero", 3022, errs.ErWarnOpenTempTablesMustBeZero},
	{"ErWarnOnlyMasterLogFileNoPos", 3023, errs.ErWarnOnlyMasterLogFileNoPos},
	{"ErQueryTimeout", 3024, errs.ErQueryTimeout},
	{"ErNonRoSelectDisableTimer", 3025, errs.ErNonRoSelectDisableTimer},
	{"ErDupListEntry", 3026, errs.ErDupListEntry},
	{"ErSQLModeNoEffect", 3027, errs.ErSQLModeNoEffect},
	{"ErAggregateOrderForUnion", 3028, errs.ErAggregateOrderForUnion},
	{"ErAggregateOrderNonAggQuery", 3029, errs.ErAggregateOrderNonAggQuery},
	{"ErSlaveWorkerStoppedPreviousThdError", 3030, errs.ErSlaveWorkerStoppedPreviousThdError},
	{"ErDontSupportSlavePreserveCommitOrder", 3031, errs.ErDontSupportSlavePreserveCommitOrder},
	{"ErServerOfflineMode", 3032, errs.ErServerOfflineMode},
	{"ErGisDifferentSrids", 3033, errs.ErGisDifferentSrids},
	{"ErGisUnsupportedArgument", 3034, errs.ErGisUnsupportedArgument},
	{"ErGisUnknownError", 3035, errs.ErGisUnknownError},
	{"ErGisUnknownException", 3036, errs.ErGisUnknownException},
	{"ErGisInvalidData", 3037, errs.ErGisInvalidData},
	{"ErBoostGeometryEmptyInputException", 3038, errs.ErBoostGeometryEmptyInputException},
	{"ErBoostGeometryCentroidException", 3039, errs.ErBoostGeometryCentroidException},
	{"ErBoostGeometryOverlayInvalidInputException", 3040, errs.ErBoostGeometryOverlayInvalidInputException},
	{"ErBoostGeometryTurnInfoException", 3041, errs.ErBoostGeometryTurnInfoException},
	{"ErBoostGeometrySelfIntersectionPointException", 3042, errs.ErBoostGeometrySelfIntersectionPointException},
	{"ErBoostGeometryUnknownException", 3043, errs.ErBoostGeometryUnknownException},
	{"ErStdBadAllocError", 3044, errs.ErStdBadAllocError},
	{"ErStdDomainError", 3045, errs.ErStdDomainError},
	{"ErStdLengthError", 3046, errs.ErStdLengthError},
	{"ErStdInvalidArgument", 3047, errs.ErStdInvalidArgument},
	{"ErStdOutOfRangeError", 3048, errs.ErStdOutOfRangeError},
	{"ErStdOverflowError", 3049, errs.ErStdOverflowError},
	{"ErStdRangeError", 3050, errs.ErStdRangeError},
	{"ErStdUnderflowError", 3051, errs.ErStdUnderflowError},
	{"ErStdLogicError", 3052, errs.ErStdLogicError},
	{"ErStdRuntimeError", 3053, errs.ErStdRuntimeError},
	{"ErStdUnknownException", 3054, errs.ErStdUnknownException},
	{"ErGisDataWrongEndianess", 3055, errs.ErGisDataWrongEndianess},
	{"ErChangeMasterPasswordLength", 3056, errs.ErChangeMasterPasswordLength},
	{"ErUserLockWrongName", 3057, errs.ErUserLockWrongName},
	{"ErUserLockDeadlock", 3058, errs.ErUserLockDeadlock},
	{"ErReplaceInaccessibleRows", 3059, errs.ErReplaceInaccessibleRows},
	{"ErAlterOperationNotSupportedReasonGis", 3060, errs.ErAlterOperationNotSupportedReasonGis},
	{"ErIllegalUserVar", 3061, errs.ErIllegalUserVar},
	{"ErGTIDModeOff", 3062, errs.ErGTIDModeOff},
	{"ErUnsupportedByReplicationThread", 3063, errs.ErUnsupportedByReplicationThread},
	{"ErIncorrectType", 3064, errs.ErIncorrectType},
	{"ErFieldInOrderNotSelect", 3065, errs.ErFieldInOrderNotSelect},
	{"ErAggregateInOrderNotSelect", 3066, errs.ErAggregateInOrderNotSelect},
	{"ErInvalidRplWildTableFilterPattern", 3067, errs.ErInvalidRplWildTableFilterPattern},
	{"ErNetOkPacketTooLarge", 3068, errs.ErNetOkPacketTooLarge},
	{"ErInvalidJSONData", 3069, errs.ErInvalidJSONData},
	{"ErInvalidGeojsonMissingMember", 3070, errs.ErInvalidGeojsonMissingMember},
	{"ErInvalidGeojsonWrongType", 3071, errs.ErInvalidGeojsonWrongType},
	{"ErInvalidGeojsonUnspecified", 3072, errs.ErInvalidGeojsonUnspecified},
	{"ErDimensionUnsupported", 3073, errs.ErDimensionUnsupported},
	{"ErSlaveChannelDoesNotExist", 3074, errs.ErSlaveChannelDoesNotExist},
	{"ErSlaveMultipleChannelsHostPort", 3075, errs.ErSlaveMultipleChannelsHostPort},
	{"ErSlaveChannelNameInvalidOrTooLong", 3076, errs.ErSlaveChannelNameInvalidOrTooLong},
	{"ErSlaveNewChannelWrongRepository", 3077, errs.ErSlaveNewChannelWrongRepository},
	{"ErSlaveChannelDelete", 3078, errs.ErSlaveChannelDelete},
	{"ErSlaveMultipleChannelsCmd", 3079, errs.ErSlaveMultipleChannelsCmd},
	{"ErSlaveMaxChannelsExceeded", 3080, errs.ErSlaveMaxChannelsExceeded},
	{"ErSlaveChannelMustStop", 3081, errs.ErSlaveChannelMustStop},
	{"ErSlaveChannelNotRunning", 3082, errs.ErSlaveChannelNotRunning},
	{"ErSlaveChannelWasRunning", 3083, errs.ErSlaveChannelWasRunning},
	{"ErSlaveChannelWasNotRunning", 3084, errs.ErSlaveChannelWasNotRunning},
	{"ErSlaveChannelSQLThreadMustStop", 3085, errs.ErSlaveChannelSQLThreadMustStop},
	{"ErSlaveChannelSQLSkipCounter", 3086, errs.ErSlaveChannelSQLSkipCounter},
	{"ErWrongFieldWithGroupV2", 3087, errs.ErWrongFieldWithGroupV2},
	{"ErMixOfGroupFuncAndFieldsV2", 3088, errs.ErMixOfGroupFuncAndFieldsV2},
	{"ErWarnDeprecatedSysvarUpdate", 3089, errs.ErWarnDeprecatedSysvarUpdate},
	{"ErWarnDeprecatedSqlmode", 3090, errs.ErWarnDeprecatedSqlmode},
	{"ErCannotLogPartialDropDatabaseWithGTID", 3091, errs.ErCannotLogPartialDropDatabaseWithGTID},
	{"ErGroupReplicationConfiguration", 3092, errs.ErGroupReplicationConfiguration},
	{"ErGroupReplicationRunning", 3093, errs.ErGroupReplicationRunning},
	{"ErGroupReplicationApplierInitError", 3094, errs.ErGroupReplicationApplierInitError},
	{"ErGroupReplicationStopApplierThreadTimeout", 3095, errs.ErGroupReplicationStopApplierThreadTimeout},
	{"ErGroupReplicationCommunicationLayerSessionError", 3096, errs.ErGroupReplicationCommunicationLayerSessionError},
	{"ErGroupReplicationCommunicationLayerJoinError", 3097, errs.ErGroupReplicationCommunicationLayerJoinError},
	{"ErBeforeDmlValidationError", 3098, errs.ErBeforeDmlValidationError},
	{"ErPreventsVariableWithoutRbr", 3099, errs.ErPreventsVariableWithoutRbr},
	{"ErRunHookError", 3100, errs.ErRunHookError},
	{"ErTransactionRollbackDuringCommit", 3101, errs.ErTransactionRollbackDuringCommit},
	{"ErGeneratedColumnFunctionIsNotAllowed", 3102, errs.ErGeneratedColumnFunctionIsNotAllowed},
	{"ErUnsupportedAlterInplaceOnVirtualColumn", 3103, errs.ErUnsupportedAlterInplaceOnVirtualColumn},
	{"ErWrongFkOptionForGeneratedColumn", 3104, errs.ErWrongFkOptionForGeneratedColumn},
	{"ErNonDefaultValueForGeneratedColumn", 3105, errs.ErNonDefaultValueForGeneratedColumn},
	{"ErUnsupportedActionOnGeneratedColumn", 3106, errs.ErUnsupportedActionOnGeneratedColumn},
	{"ErGeneratedColumnNonPrior", 3107, errs.ErGeneratedColumnNonPrior},
	{"ErDependentByGeneratedColumn", 3108, errs.ErDependentByGeneratedColumn},
	{"ErGeneratedColumnRefAutoInc", 3109, errs.ErGeneratedColumnRefAutoInc},
	{"ErFeatureNotAvailable", 3110, errs.ErFeatureNotAvailable},
	{"ErCantSetGTIDMode", 3111, errs.ErCantSetGTIDMode},
	{"ErCantUseAutoPositionWithGTIDModeOff", 3112, errs.ErCantUseAutoPositionWithGTIDModeOff},
	{"ErCantReplicateAnonymousWithAutoPosition", 3113, errs.ErCantReplicateAnonymousWithAutoPosition},
	{"ErCantReplicateAnonymousWithGTIDModeOn", 3114, errs.ErCantReplicateAnonymousWithGTIDModeOn},
	{"ErCantReplicateGTIDWithGTIDModeOff", 3115, errs.ErCantReplicateGTIDWithGTIDModeOff},
	{"ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions", 3116, errs.ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions},
	{"ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions", 3117, errs.ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions},
	{"ErAccountHasBeenLocked", 3118, errs.ErAccountHasBeenLocked},
	{"ErWrongTablespaceName", 3119, errs.ErWrongTablespaceName},
	{"ErTablespaceIsNotEmpty", 3120, errs.ErTablespaceIsNotEmpty},
	{"ErWrongFileName", 3121, errs.ErWrongFileName},
	{"ErBoostGeometryInconsistentTurnsException", 3122, errs.ErBoostGeometryInconsistentTurnsException},
	{"ErWarnOptimizerHintSyntaxError", 3123, errs.ErWarnOptimizerHintSyntaxError},
	{"ErWarnBadMaxExecutionTime", 3124, errs.ErWarnBadMaxExecutionTime},
	{"ErWarnUnsupportedMaxExecutionTime", 3125, errs.ErWarnUnsupportedMaxExecutionTime},
	{"ErWarnConflictingHint", 3126, errs.ErWarnConflictingHint},
	{"ErWarnUnknownQbName", 3127, errs.ErWarnUnknownQbName},
	{"ErUnresolvedHintName", 3128, errs.ErUnresolvedHintName},
	{"ErWarnOnModifyingGTIDExecutedTable", 3129, errs.ErWarnOnModifyingGTIDExecutedTable},
	{"ErPluggableProtocolCommandNotSupported", 3130, errs.ErPluggableProtocolCommandNotSupported},
	{"ErLockingServiceWrongName", 3131, errs.ErLockingServiceWrongName},
	{"ErLockingServiceDeadlock", 3132, errs.ErLockingServiceDeadlock},
	{"ErLockingServiceTimeout", 3133, errs.ErLockingServiceTimeout},
	{"ErGisMaxPointsInGeometryOverflowed", 3134, errs.ErGisMaxPointsInGeometryOverflowed},
	{"ErSQLModeMerged", 3135, errs.ErSQLModeMerged},
	{"ErVtokenPluginTokenMismatch", 3136, errs.ErVtokenPluginTokenMismatch},
	{"ErVtokenPluginTokenNotFound", 3137, errs.ErVtokenPluginTokenNotFound},
	{"ErCantSetVariableWhenOwningGTID", 3138, errs.ErCantSetVariableWhenOwningGTID},
	{"ErSlaveChannelOperationNotAllowed", 3139, errs.ErSlaveChannelOperationNotAllowed},
	{"ErInvalidJSONText", 3140, errs.ErInvalidJSONText},
	{"ErInvalidJSONTextInParam", 3141, errs.ErInvalidJSONTextInParam},
	{"ErInvalidJSONBinaryData", 3142, errs.ErInvalidJSONBinaryData},
	{"ErInvalidJSONPath", 3143, errs.ErInvalidJSONPath},
	{"ErInvalidJSONCharset", 3144, errs.ErInvalidJSONCharset},
	{"ErInvalidJSONCharsetInFunction", 3145, errs.ErInvalidJSONCharsetInFunction},
	{"ErInvalidTypeForJSON", 3146, errs.ErInvalidTypeForJSON},
	{"ErInvalidCastToJSON", 3147, errs.ErInvalidCastToJSON},
	{"ErInvalidJSONPathCharset", 3148, errs.ErInvalidJSONPathCharset},
	{"ErInvalidJSONPathWildcard", 3149, errs.ErInvalidJSONPathWildcard},
	{"ErJSONValueTooBig", 3150, errs.ErJSONValueTooBig},
	{"ErJSONKeyTooBig", 3151, errs.ErJSONKeyTooBig},
	{"ErJSONUsedAsKey", 3152, errs.ErJSONUsedAsKey},
	{"ErJSONVacuousPath", 3153, errs.ErJSONVacuousPath},
	{"ErJSONBadOneOrAllArg", 3154, errs.ErJSONBadOneOrAllArg},
	{"ErNumericJSONValueOutOfRange", 3155, errs.ErNumericJSONValueOutOfRange},
	{"ErInvalidJSONValueForCast", 3156, errs.ErInvalidJSONValueForCast},
	{"ErJSONDocumentTooDeep", 3157, errs.ErJSONDocumentTooDeep},
	{"ErJSONDocumentNullKey", 3158, errs.ErJSONDocumentNullKey},
	{"ErSecureTransportRequired", 3159, errs.ErSecureTransportRequired},
	{"ErNoSecureTransportsConfigured", 3160, errs.ErNoSecureTransportsConfigured},
	{"ErDisabledStorageEngine", 3161, errs.ErDisabledStorageEngine},
	{"ErUserDoesNotExist", 3162, errs.ErUserDoesNotExist},
	{"ErUserAlreadyExists", 3163, errs.ErUserAlreadyExists},
	{"ErAuditAPIAbort", 3164, errs.ErAuditAPIAbort},
	{"ErInvalidJSONPathArrayCell", 3165, errs.ErInvalidJSONPathArrayCell},
	{"ErBufpoolResizeInprogress", 3166, errs.ErBufpoolResizeInprogress},
	{"ErFeatureDisabledSeeDoc", 3167, errs.ErFeatureDisabledSeeDoc},
	{"ErServerIsntAvailable", 3168, errs.ErServerIsntAvailable},
	{"ErSessionWasKilled", 3169, errs.ErSessionWasKilled},
	{"ErCapacityExceeded", 3170, errs.ErCapacityExceeded},
	{"ErCapacityExceededInRangeOptimizer", 3171, errs.ErCapacityExceededInRangeOptimizer},
	{"ErTableNeedsUpgPart", 3172, errs.ErTableNeedsUpgPart},
	{"ErCantWaitForExecutedGTIDSetWhileOwningAGTID", 3173, errs.ErCantWaitForExecutedGTIDSetWhileOwningAGTID},
	{"ErCannotAddForeignBaseColVirtual", 3174, errs.ErCannotAddForeignBaseColVirtual},
	{"ErCannotCreateVirtualIndexConstraint", 3175, errs.ErCannotCreateVirtualIndexConstraint},
	{"ErErrorOnModifyingGTIDExecutedTable", 3176, errs.ErErrorOnModifyingGTIDExecutedTable},
	{"ErLockRefusedByEngine", 3177, errs.ErLockRefusedByEngine},
	{"ErUnsupportedAlterOnlineOnVirtualColumn", 3178, errs.ErUnsupportedAlterOnlineOnVirtualColumn},
	{"ErMasterKeyRotationNotSupportedBySe", 3179, errs.ErMasterKeyRotationNotSupportedBySe},
	{"ErMasterKeyRotationErrorBySe", 3180, errs.ErMasterKeyRotationErrorBySe},
	{"ErMasterKeyRotationBinlogFailed", 3181, errs.ErMasterKeyRotationBinlogFailed},
	{"ErMasterKeyRotationSeUnavailable", 3182, errs.ErMasterKeyRotationSeUnavailable},
	{"ErTablespaceCannotEncrypt", 3183, errs.ErTablespaceCannotEncrypt},
	{"ErInvalidEncryptionOption", 3184, errs.ErInvalidEncryptionOption},
	{"ErCannotFindKeyInKeyring", 3185, errs.ErCannotFindKeyInKeyring},
	{"ErCapacityExceededInParser", 3186, errs.ErCapacityExceededInParser},
	{"ErUnsupportedAlterEncryptionInplace", 3187, errs.ErUnsupportedAlterEncryptionInplace},
	{"ErKeyringUdfKeyringServiceError", 3188, errs.ErKeyringUdfKeyringServiceError},
	{"ErUserColumnOldLength", 3189, errs.ErUserColumnOldLength},
	{"ErXServiceError", 5010, errs.ErXServiceError},
	{"ErXSession", 5011, errs.ErXSession},
	{"ErXInvalidArgument", 5012, errs.ErXInvalidArgument},
	{"ErXMissingArgument", 5013, errs.ErXMissingArgument},
	{"ErXBadInsertData", 5014, errs.ErXBadInsertData},
	{"ErXCmdNumArguments", 5015, errs.ErXCmdNumArguments},
	{"ErXCmdArgumentType", 5016, errs.ErXCmdArgumentType},
	{"ErXCmdArgumentTVale", 5017, errs.ErXCmdArgumentTVale},
	{"ErXBadUpsertData", 5018, errs.ErXBadUpsertData},
	{"ErXBadUpdateData", 5050, errs.ErXBadUpdateData},
	{"ErXBadTypeOfUpdate", 5051, errs.ErXBadTypeOfUpdate},
	{"ErXBadColumnToUpdate", 5052, errs.ErXBadColumnToUpdate},
	{"ErXBadMemberToUpdate", 5053, errs.ErXBadMemberToUpdate},
	{"ErXBadStatementID", 5110, errs.ErXBadStatementID},
	{"ErXBadCursorID", 5111, errs.ErXBadCursorID},
	{"ErXBadSchema", 5112, errs.ErXBadSchema},
	{"ErXBadTable", 5113, errs.ErXBadTable},
	{"ErXBadProjection", 5114, errs.ErXBadProjection},
	{"ErXDocIDMissing", 5115, errs.ErXDocIDMissing},
	{"ErXDocIDDuplicate", 5116, errs.ErXDocIDDuplicate},
	{"ErXDocRequiredFieldMissing", 5117, errs.ErXDocRequiredFieldMissing},
	{"ErXProjBadKeyName", 5120, errs.ErXProjBadKeyName},
	{"ErXBadDocPath", 5121, errs.ErXBadDocPath},
	{"ErXCursorExists", 5122, errs.ErXCursorExists},
	{"ErXCursorReachedEOF", 5123, errs.ErXCursorReachedEOF},
	{"ErXPreparedStatementCanHaveOnCursor", 5131, errs.ErXPreparedStatementCanHaveOnCursor},
	{"ErXPreparedExecuteArgumentNotSupported", 5133, errs.ErXPreparedExecuteArgumentNotSupported},
	{"ErXPreparedExecuteArgumentConsistency", 5134, errs.ErXPreparedExecuteArgumentConsistency},
	{"ErXExprBadOperator", 5150, errs.ErXExprBadOperator},
	{"ErXExprBadNumArgs", 5151, errs.ErXExprBadNumArgs},
	{"ErXExprMissingArg", 5152, errs.ErXExprMissingArg},
	{"ErXExprBadTypeValue", 5153, errs.ErXExprBadTypeValue},
	{"ErXExprBadValue", 5154, errs.ErXExprBadValue},
	{"ErXInvalidCollection", 5156, errs.ErXInvalidCollection},
	{"ErXInvalidAdminCommand", 5157, errs.ErXInvalidAdminCommand},
	{"ErXExpectNotOpen", 5158, errs.ErXExpectNotOpen},
	{"ErXExpectNoErrorFailed", 5159, errs.ErXExpectNoErrorFailed},
	{"ErXExpectBadCondition", 5160, errs.ErXExpectBadCondition},
	{"ErXExpectBadConditionValue", 5161, errs.ErXExpectBadConditionValue},
	{"ErXInvalidNamespace", 5162, errs.ErXInvalidNamespace},
	{"ErXBadNotice", 5163, errs.ErXBadNotice},
	{"ErXCannotDisableNotice", 5164, errs.ErXCannotDisableNotice},
	{"ErXBadConfiguration", 5165, errs.ErXBadConfiguration},
	{"ErXMySQLXAaccountMissingPermissions", 5167, errs.ErXMySQLXAaccountMissingPermissions},
	{"ErXExpectFieldExistsFailed", 5168, errs.ErXExpectFieldExistsFailed},
	{"ErXBadLocking", 5169, errs.ErXBadLocking},
}
