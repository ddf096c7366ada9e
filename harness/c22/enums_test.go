package c22

// Made by tools/mkenums.py from the protocol definition in proto/.

import (
	"github.com/renthraysk/xtorm/protobuf/mysqlx"
	_ "github.com/renthraysk/xtorm/protobuf/mysqlx_connection"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_crud"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_cursor"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_datatypes"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expect"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_expr"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_notice"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_prepare"
	"github.com/renthraysk/xtorm/protobuf/mysqlx_resultset"
	_ "github.com/renthraysk/xtorm/protobuf/mysqlx_session"
	_ "github.com/renthraysk/xtorm/protobuf/mysqlx_sql"
)

// constants are the enum constants of the bindings: the enum, the name and number it has in
// the definition; the constant's value, text and what Enum points to.
var constants = []struct {
	enum, name string
	num        int32
	got        int32
	text       string
	ptr        interface{}
}{
	{"Mysqlx.ClientMessages.Type", "CON_CAPABILITIES_GET", 1, int32(mysqlx.ClientMessages_CON_CAPABILITIES_GET), mysqlx.ClientMessages_CON_CAPABILITIES_GET.String(), mysqlx.ClientMessages_CON_CAPABILITIES_GET.Enum()},
	{"Mysqlx.ClientMessages.Type", "CON_CAPABILITIES_SET", 2, int32(mysqlx.ClientMessages_CON_CAPABILITIES_SET), mysqlx.ClientMessages_CON_CAPABILITIES_SET.String(), mysqlx.ClientMessages_CON_CAPABILITIES_SET.Enum()},
	{"Mysqlx.ClientMessages.Type", "CON_CLOSE", 3, int32(mysqlx.ClientMessages_CON_CLOSE), mysqlx.ClientMessages_CON_CLOSE.String(), mysqlx.ClientMessages_CON_CLOSE.Enum()},
	{"Mysqlx.ClientMessages.Type", "SESS_AUTHENTICATE_START", 4, int32(mysqlx.ClientMessages_SESS_AUTHENTICATE_START), mysqlx.ClientMessages_SESS_AUTHENTICATE_START.String(), mysqlx.ClientMessages_SESS_AUTHENTICATE_START.Enum()},
	{"Mysqlx.ClientMessages.Type", "SESS_AUTHENTICATE_CONTINUE", 5, int32(mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE), mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE.String(), mysqlx.ClientMessages_SESS_AUTHENTICATE_CONTINUE.Enum()},
	{"Mysqlx.ClientMessages.Type", "SESS_RESET", 6, int32(mysqlx.ClientMessages_SESS_RESET), mysqlx.ClientMessages_SESS_RESET.String(), mysqlx.ClientMessages_SESS_RESET.Enum()},
	{"Mysqlx.ClientMessages.Type", "SESS_CLOSE", 7, int32(mysqlx.ClientMessages_SESS_CLOSE), mysqlx.ClientMessages_SESS_CLOSE.String(), mysqlx.ClientMessages_SESS_CLOSE.Enum()},
	{"Mysqlx.ClientMessages.Type", "SQL_STMT_EXECUTE", 12, int32(mysqlx.ClientMessages_SQL_STMT_EXECUTE), mysqlx.ClientMessages_SQL_STMT_EXECUTE.String(), mysqlx.ClientMessages_SQL_STMT_EXECUTE.Enum()},
	{"Mysqlx.ClientMessages.Type", "CRUD_FIND", 17, int32(mysqlx.ClientMessages_CRUD_FIND), mysqlx.ClientMessages_CRUD_FIND.String(), mysqlx.ClientMessages_CRUD_FIND.Enum()},
	{"Mysqlx.ClientMessages.Type", "CRUD_INSERT", 18, int32(mysqlx.ClientMessages_CRUD_INSERT), mysqlx.ClientMessages_CRUD_INSERT.String(), mysqlx.ClientMessages_CRUD_INSERT.Enum()},
	{"Mysqlx.ClientMessages.Type", "CRUD_UPDATE", 19, int32(mysqlx.ClientMessages_CRUD_UPDATE), mysqlx.ClientMessages_CRUD_UPDATE.String(), mysqlx.ClientMessages_CRUD_UPDATE.Enum()},
	{"Mysqlx.ClientMessages.Type", "CRUD_DELETE", 20, int32(mysqlx.ClientMessages_CRUD_DELETE), mysqlx.ClientMessages_CRUD_DELETE.String(), mysqlx.ClientMessages_CRUD_DELETE.Enum()},
	{"Mysqlx.ClientMessages.Type", "EXPECT_OPEN", 24, int32(mysqlx.ClientMessages_EXPECT_OPEN), mysqlx.ClientMessages_EXPECT_OPEN.String(), mysqlx.ClientMessages_EXPECT_OPEN.Enum()},
	{"Mysqlx.ClientMessages.Type", "EXPECT_CLOSE", 25, int32(mysqlx.ClientMessages_EXPECT_CLOSE), mysqlx.ClientMessages_EXPECT_CLOSE.String(), mysqlx.ClientMessages_EXPECT_CLOSE.Enum()},
	{"Mysqlx.ClientMessages.Type", "CRUD_CREATE_VIEW", 30, int32(mysqlx.ClientMessages_CRUD_CREATE_VIEW), mysqlx.ClientMessages_CRUD_CREATE_VIEW.String(), mysqlx.ClientMessages_CRUD_CREATE_VIEW.Enum()},
	{"Mysqlx.ClientMessages.Type", "CRUD_MODIFY_VIEW", 31, int32(mysqlx.ClientMessages_CRUD_MODIFY_VIEW), mysqlx.ClientMessages_CRUD_MODIFY_VIEW.String(), mysqlx.ClientMessages_CRUD_MODIFY_VIEW.Enum()},
	{"Mysqlx.ClientMessages.Type", "CRUD_DROP_VIEW", 32, int32(mysqlx.ClientMessages_CRUD_DROP_VIEW), mysqlx.ClientMessages_CRUD_DROP_VIEW.String(), mysqlx.ClientMessages_CRUD_DROP_VIEW.Enum()},
	{"Mysqlx.ClientMessages.Type", "PREPARE_PREPARE", 40, int32(mysqlx.ClientMessages_PREPARE_PREPARE), mysqlx.ClientMessages_PREPARE_PREPARE.String(), mysqlx.ClientMessages_PREPARE_PREPARE.Enum()},
	{"Mysqlx.ClientMessages.Type", "PREPARE_EXECUTE", 41, int32(mysqlx.ClientMessages_PREPARE_EXECUTE), mysqlx.ClientMessages_PREPARE_EXECUTE.String(), mysqlx.ClientMessages_PREPARE_EXECUTE.Enum()},
	{"Mysqlx.ClientMessages.Type", "PREPARE_DEALLOCATE", 42, int32(mysqlx.ClientMessages_PREPARE_DEALLOCATE), mysqlx.ClientMessages_PREPARE_DEALLOCATE.String(), mysqlx.ClientMessages_PREPARE_DEALLOCATE.Enum()},
	{"Mysqlx.ClientMessages.Type", "CURSOR_OPEN", 43, int32(mysqlx.ClientMessages_CURSOR_OPEN), mysqlx.ClientMessages_CURSOR_OPEN.String(), mysqlx.ClientMessages_CURSOR_OPEN.Enum()},
	{"Mysqlx.ClientMessages.Type", "CURSOR_CLOSE", 44, int32(mysqlx.ClientMessages_CURSOR_CLOSE), mysqlx.ClientMessages_CURSOR_CLOSE.String(), mysqlx.ClientMessages_CURSOR_CLOSE.Enum()},
	{"Mysqlx.ClientMessages.Type", "CURSOR_FETCH", 45, int32(mysqlx.ClientMessages_CURSOR_FETCH), mysqlx.ClientMessages_CURSOR_FETCH.String(), mysqlx.ClientMessages_CURSOR_FETCH.Enum()},
	{"Mysqlx.ClientMessages.Type", "COMPRESSION", 46, int32(mysqlx.ClientMessages_COMPRESSION), mysqlx.ClientMessages_COMPRESSION.String(), mysqlx.ClientMessages_COMPRESSION.Enum()},
	{"Mysqlx.ServerMessages.Type", "OK", 0, int32(mysqlx.ServerMessages_OK), mysqlx.ServerMessages_OK.String(), mysqlx.ServerMessages_OK.Enum()},
	{"Mysqlx.ServerMessages.Type", "ERROR", 1, int32(mysqlx.ServerMessages_ERROR), mysqlx.ServerMessages_ERROR.String(), mysqlx.ServerMessages_ERROR.Enum()},
	{"Mysqlx.ServerMessages.Type", "CONN_CAPABILITIES", 2, int32(mysqlx.ServerMessages_CONN_CAPABILITIES), mysqlx.ServerMessages_CONN_CAPABILITIES.String(), mysqlx.ServerMessages_CONN_CAPABILITIES.Enum()},
	{"Mysqlx.ServerMessages.Type", "SESS_AUTHENTICATE_CONTINUE", 3, int32(mysqlx.ServerMessages_SESS_AUTHENTICATE_CONTINUE), mysqlx.ServerMessages_SESS_AUTHENTICATE_CONTINUE.String(), mysqlx.ServerMessages_SESS_AUTHENTICATE_CONTINUE.Enum()},
	{"Mysqlx.ServerMessages.Type", "SESS_AUTHENTICATE_OK", 4, int32(mysqlx.ServerMessages_SESS_AUTHENTICATE_OK), mysqlx.ServerMessages_SESS_AUTHENTICATE_OK.String(), mysqlx.ServerMessages_SESS_AUTHENTICATE_OK.Enum()},
	{"Mysqlx.ServerMessages.Type", "NOTICE", 11, int32(mysqlx.ServerMessages_NOTICE), mysqlx.ServerMessages_NOTICE.String(), mysqlx.ServerMessages_NOTICE.Enum()},
	{"Mysqlx.ServerMessages.Type", "RESULTSET_COLUMN_META_DATA", 12, int32(mysqlx.ServerMessages_RESULTSET_COLUMN_META_DATA), mysqlx.ServerMessages_RESULTSET_COLUMN_META_DATA.String(), mysqlx.ServerMessages_RESULTSET_COLUMN_META_DATA.Enum()},
	{"Mysqlx.ServerMessages.Type", "RESULTSET_ROW", 13, int32(mysqlx.ServerMessages_RESULTSET_ROW), mysqlx.ServerMessages_RESULTSET_ROW.String(), mysqlx.ServerMessages_RESULTSET_ROW.Enum()},
	{"Mysqlx.ServerMessages.Type", "RESULTSET_FETCH_DONE", 14, int32(mysqlx.ServerMessages_RESULTSET_FETCH_DONE), mysqlx.ServerMessages_RESULTSET_FETCH_DONE.String(), mysqlx.ServerMessages_RESULTSET_FETCH_DONE.Enum()},
	{"Mysqlx.ServerMessages.Type", "RESULTSET_FETCH_SUSPENDED", 15, int32(mysqlx.ServerMessages_RESULTSET_FETCH_SUSPENDED), mysqlx.ServerMessages_RESULTSET_FETCH_SUSPENDED.String(), mysqlx.ServerMessages_RESULTSET_FETCH_SUSPENDED.Enum()},
	{"Mysqlx.ServerMessages.Type", "RESULTSET_FETCH_DONE_MORE_RESULTSETS", 16, int32(mysqlx.ServerMessages_RESULTSET_FETCH_DONE_MORE_RESULTSETS), mysqlx.ServerMessages_RESULTSET_FETCH_DONE_MORE_RESULTSETS.String(), mysqlx.ServerMessages_RESULTSET_FETCH_DONE_MORE_RESULTSETS.Enum()},
	{"Mysqlx.ServerMessages.Type", "SQL_STMT_EXECUTE_OK", 17, int32(mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK), mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK.String(), mysqlx.ServerMessages_SQL_STMT_EXECUTE_OK.Enum()},
	{"Mysqlx.ServerMessages.Type", "RESULTSET_FETCH_DONE_MORE_OUT_PARAMS", 18, int32(mysqlx.ServerMessages_RESULTSET_FETCH_DONE_MORE_OUT_PARAMS), mysqlx.ServerMessages_RESULTSET_FETCH_DONE_MORE_OUT_PARAMS.String(), mysqlx.ServerMessages_RESULTSET_FETCH_DONE_MORE_OUT_PARAMS.Enum()},
	{"Mysqlx.ServerMessages.Type", "COMPRESSION", 19, int32(mysqlx.ServerMessages_COMPRESSION), mysqlx.ServerMessages_COMPRESSION.String(), mysqlx.ServerMessages_COMPRESSION.Enum()},
	{"Mysqlx.Error.Severity", "ERROR", 0, int32(mysqlx.Error_ERROR), mysqlx.Error_ERROR.String(), mysqlx.Error_ERROR.Enum()},
	{"Mysqlx.Error.Severity", "FATAL", 1, int32(mysqlx.Error_FATAL), mysqlx.Error_FATAL.String(), mysqlx.Error_FATAL.Enum()},
	{"Mysqlx.Crud.DataModel", "DOCUMENT", 1, int32(mysqlx_crud.DataModel_DOCUMENT), mysqlx_crud.DataModel_DOCUMENT.String(), mysqlx_crud.DataModel_DOCUMENT.Enum()},
	{"Mysqlx.Crud.DataModel", "TABLE", 2, int32(mysqlx_crud.DataModel_TABLE), mysqlx_crud.DataModel_TABLE.String(), mysqlx_crud.DataModel_TABLE.Enum()},
	{"Mysqlx.Crud.Order.Direction", "ASC", 1, int32(mysqlx_crud.Order_ASC), mysqlx_crud.Order_ASC.String(), mysqlx_crud.Order_ASC.Enum()},
	{"Mysqlx.Crud.Order.Direction", "DESC", 2, int32(mysqlx_crud.Order_DESC), mysqlx_crud.Order_DESC.String(), mysqlx_crud.Order_DESC.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "SET", 1, int32(mysqlx_crud.UpdateOperation_SET), mysqlx_crud.UpdateOperation_SET.String(), mysqlx_crud.UpdateOperation_SET.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "ITEM_REMOVE", 2, int32(mysqlx_crud.UpdateOperation_ITEM_REMOVE), mysqlx_crud.UpdateOperation_ITEM_REMOVE.String(), mysqlx_crud.UpdateOperation_ITEM_REMOVE.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "ITEM_SET", 3, int32(mysqlx_crud.UpdateOperation_ITEM_SET), mysqlx_crud.UpdateOperation_ITEM_SET.String(), mysqlx_crud.UpdateOperation_ITEM_SET.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "ITEM_REPLACE", 4, int32(mysqlx_crud.UpdateOperation_ITEM_REPLACE), mysqlx_crud.UpdateOperation_ITEM_REPLACE.String(), mysqlx_crud.UpdateOperation_ITEM_REPLACE.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "ITEM_MERGE", 5, int32(mysqlx_crud.UpdateOperation_ITEM_MERGE), mysqlx_crud.UpdateOperation_ITEM_MERGE.String(), mysqlx_crud.UpdateOperation_ITEM_MERGE.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "ARRAY_INSERT", 6, int32(mysqlx_crud.UpdateOperation_ARRAY_INSERT), mysqlx_crud.UpdateOperation_ARRAY_INSERT.String(), mysqlx_crud.UpdateOperation_ARRAY_INSERT.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "ARRAY_APPEND", 7, int32(mysqlx_crud.UpdateOperation_ARRAY_APPEND), mysqlx_crud.UpdateOperation_ARRAY_APPEND.String(), mysqlx_crud.UpdateOperation_ARRAY_APPEND.Enum()},
	{"Mysqlx.Crud.UpdateOperation.UpdateType", "MERGE_PATCH", 8, int32(mysqlx_crud.UpdateOperation_MERGE_PATCH), mysqlx_crud.UpdateOperation_MERGE_PATCH.String(), mysqlx_crud.UpdateOperation_MERGE_PATCH.Enum()},
	{"Mysqlx.Crud.Find.RowLock", "SHARED_LOCK", 1, int32(mysqlx_crud.Find_SHARED_LOCK), mysqlx_crud.Find_SHARED_LOCK.String(), mysqlx_crud.Find_SHARED_LOCK.Enum()},
	{"Mysqlx.Crud.Find.RowLock", "EXCLUSIVE_LOCK", 2, int32(mysqlx_crud.Find_EXCLUSIVE_LOCK), mysqlx_crud.Find_EXCLUSIVE_LOCK.String(), mysqlx_crud.Find_EXCLUSIVE_LOCK.Enum()},
	{"Mysqlx.Crud.Find.RowLockOptions", "NOWAIT", 1, int32(mysqlx_crud.Find_NOWAIT), mysqlx_crud.Find_NOWAIT.String(), mysqlx_crud.Find_NOWAIT.Enum()},
	{"Mysqlx.Crud.Find.RowLockOptions", "SKIP_LOCKED", 2, int32(mysqlx_crud.Find_SKIP_LOCKED), mysqlx_crud.Find_SKIP_LOCKED.String(), mysqlx_crud.Find_SKIP_LOCKED.Enum()},
	{"Mysqlx.Crud.ViewAlgorithm", "UNDEFINED", 1, int32(mysqlx_crud.ViewAlgorithm_UNDEFINED), mysqlx_crud.ViewAlgorithm_UNDEFINED.String(), mysqlx_crud.ViewAlgorithm_UNDEFINED.Enum()},
	{"Mysqlx.Crud.ViewAlgorithm", "MERGE", 2, int32(mysqlx_crud.ViewAlgorithm_MERGE), mysqlx_crud.ViewAlgorithm_MERGE.String(), mysqlx_crud.ViewAlgorithm_MERGE.Enum()},
	{"Mysqlx.Crud.ViewAlgorithm", "TEMPTABLE", 3, int32(mysqlx_crud.ViewAlgorithm_TEMPTABLE), mysqlx_crud.ViewAlgorithm_TEMPTABLE.String(), mysqlx_crud.ViewAlgorithm_TEMPTABLE.Enum()},
	{"Mysqlx.Crud.ViewSqlSecurity", "INVOKER", 1, int32(mysqlx_crud.ViewSqlSecurity_INVOKER), mysqlx_crud.ViewSqlSecurity_INVOKER.String(), mysqlx_crud.ViewSqlSecurity_INVOKER.Enum()},
	{"Mysqlx.Crud.ViewSqlSecurity", "DEFINER", 2, int32(mysqlx_crud.ViewSqlSecurity_DEFINER), mysqlx_crud.ViewSqlSecurity_DEFINER.String(), mysqlx_crud.ViewSqlSecurity_DEFINER.Enum()},
	{"Mysqlx.Crud.ViewCheckOption", "LOCAL", 1, int32(mysqlx_crud.ViewCheckOption_LOCAL), mysqlx_crud.ViewCheckOption_LOCAL.String(), mysqlx_crud.ViewCheckOption_LOCAL.Enum()},
	{"Mysqlx.Crud.ViewCheckOption", "CASCADED", 2, int32(mysqlx_crud.ViewCheckOption_CASCADED), mysqlx_crud.ViewCheckOption_CASCADED.String(), mysqlx_crud.ViewCheckOption_CASCADED.Enum()},
	{"Mysqlx.Cursor.Open.OneOfMessage.Type", "PREPARE_EXECUTE", 0, int32(mysqlx_cursor.Open_OneOfMessage_PREPARE_EXECUTE), mysqlx_cursor.Open_OneOfMessage_PREPARE_EXECUTE.String(), mysqlx_cursor.Open_OneOfMessage_PREPARE_EXECUTE.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_SINT", 1, int32(mysqlx_datatypes.Scalar_V_SINT), mysqlx_datatypes.Scalar_V_SINT.String(), mysqlx_datatypes.Scalar_V_SINT.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_UINT", 2, int32(mysqlx_datatypes.Scalar_V_UINT), mysqlx_datatypes.Scalar_V_UINT.String(), mysqlx_datatypes.Scalar_V_UINT.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_NULL", 3, int32(mysqlx_datatypes.Scalar_V_NULL), mysqlx_datatypes.Scalar_V_NULL.String(), mysqlx_datatypes.Scalar_V_NULL.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_OCTETS", 4, int32(mysqlx_datatypes.Scalar_V_OCTETS), mysqlx_datatypes.Scalar_V_OCTETS.String(), mysqlx_datatypes.Scalar_V_OCTETS.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_DOUBLE", 5, int32(mysqlx_datatypes.Scalar_V_DOUBLE), mysqlx_datatypes.Scalar_V_DOUBLE.String(), mysqlx_datatypes.Scalar_V_DOUBLE.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_FLOAT", 6, int32(mysqlx_datatypes.Scalar_V_FLOAT), mysqlx_datatypes.Scalar_V_FLOAT.String(), mysqlx_datatypes.Scalar_V_FLOAT.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_BOOL", 7, int32(mysqlx_datatypes.Scalar_V_BOOL), mysqlx_datatypes.Scalar_V_BOOL.String(), mysqlx_datatypes.Scalar_V_BOOL.Enum()},
	{"Mysqlx.Datatypes.Scalar.Type", "V_STRING", 8, int32(mysqlx_datatypes.Scalar_V_STRING), mysqlx_datatypes.Scalar_V_STRING.String(), mysqlx_datatypes.Scalar_V_STRING.Enum()},
	{"Mysqlx.Datatypes.Any.Type", "SCALAR", 1, int32(mysqlx_datatypes.Any_SCALAR), mysqlx_datatypes.Any_SCALAR.String(), mysqlx_datatypes.Any_SCALAR.Enum()},
	{"Mysqlx.Datatypes.Any.Type", "OBJECT", 2, int32(mysqlx_datatypes.Any_OBJECT), mysqlx_datatypes.Any_OBJECT.String(), mysqlx_datatypes.Any_OBJECT.Enum()},
	{"Mysqlx.Datatypes.Any.Type", "ARRAY", 3, int32(mysqlx_datatypes.Any_ARRAY), mysqlx_datatypes.Any_ARRAY.String(), mysqlx_datatypes.Any_ARRAY.Enum()},
	{"Mysqlx.Expect.Open.Condition.Key", "EXPECT_NO_ERROR", 1, int32(mysqlx_expect.Open_Condition_EXPECT_NO_ERROR), mysqlx_expect.Open_Condition_EXPECT_NO_ERROR.String(), mysqlx_expect.Open_Condition_EXPECT_NO_ERROR.Enum()},
	{"Mysqlx.Expect.Open.Condition.Key", "EXPECT_FIELD_EXIST", 2, int32(mysqlx_expect.Open_Condition_EXPECT_FIELD_EXIST), mysqlx_expect.Open_Condition_EXPECT_FIELD_EXIST.String(), mysqlx_expect.Open_Condition_EXPECT_FIELD_EXIST.Enum()},
	{"Mysqlx.Expect.Open.Condition.Key", "EXPECT_DOCID_GENERATED", 3, int32(mysqlx_expect.Open_Condition_EXPECT_DOCID_GENERATED), mysqlx_expect.Open_Condition_EXPECT_DOCID_GENERATED.String(), mysqlx_expect.Open_Condition_EXPECT_DOCID_GENERATED.Enum()},
	{"Mysqlx.Expect.Open.Condition.ConditionOperation", "EXPECT_OP_SET", 0, int32(mysqlx_expect.Open_Condition_EXPECT_OP_SET), mysqlx_expect.Open_Condition_EXPECT_OP_SET.String(), mysqlx_expect.Open_Condition_EXPECT_OP_SET.Enum()},
	{"Mysqlx.Expect.Open.Condition.ConditionOperation", "EXPECT_OP_UNSET", 1, int32(mysqlx_expect.Open_Condition_EXPECT_OP_UNSET), mysqlx_expect.Open_Condition_EXPECT_OP_UNSET.String(), mysqlx_expect.Open_Condition_EXPECT_OP_UNSET.Enum()},
	{"Mysqlx.Expect.Open.CtxOperation", "EXPECT_CTX_COPY_PREV", 0, int32(mysqlx_expect.Open_EXPECT_CTX_COPY_PREV), mysqlx_expect.Open_EXPECT_CTX_COPY_PREV.String(), mysqlx_expect.Open_EXPECT_CTX_COPY_PREV.Enum()},
	{"Mysqlx.Expect.Open.CtxOperation", "EXPECT_CTX_EMPTY", 1, int32(mysqlx_expect.Open_EXPECT_CTX_EMPTY), mysqlx_expect.Open_EXPECT_CTX_EMPTY.String(), mysqlx_expect.Open_EXPECT_CTX_EMPTY.Enum()},
	{"Mysqlx.Expr.Expr.Type", "IDENT", 1, int32(mysqlx_expr.Expr_IDENT), mysqlx_expr.Expr_IDENT.String(), mysqlx_expr.Expr_IDENT.Enum()},
	{"Mysqlx.Expr.Expr.Type", "LITERAL", 2, int32(mysqlx_expr.Expr_LITERAL), mysqlx_expr.Expr_LITERAL.String(), mysqlx_expr.Expr_LITERAL.Enum()},
	{"Mysqlx.Expr.Expr.Type", "VARIABLE", 3, int32(mysqlx_expr.Expr_VARIABLE), mysqlx_expr.Expr_VARIABLE.String(), mysqlx_expr.Expr_VARIABLE.Enum()},
	{"Mysqlx.Expr.Expr.Type", "FUNC_CALL", 4, int32(mysqlx_expr.Expr_FUNC_CALL), mysqlx_expr.Expr_FUNC_CALL.String(), mysqlx_expr.Expr_FUNC_CALL.Enum()},
	{"Mysqlx.Expr.Expr.Type", "OPERATOR", 5, int32(mysqlx_expr.Expr_OPERATOR), mysqlx_expr.Expr_OPERATOR.String(), mysqlx_expr.Expr_OPERATOR.Enum()},
	{"Mysqlx.Expr.Expr.Type", "PLACEHOLDER", 6, int32(mysqlx_expr.Expr_PLACEHOLDER), mysqlx_expr.Expr_PLACEHOLDER.String(), mysqlx_expr.Expr_PLACEHOLDER.Enum()},
	{"Mysqlx.Expr.Expr.Type", "OBJECT", 7, int32(mysqlx_expr.Expr_OBJECT), mysqlx_expr.Expr_OBJECT.String(), mysqlx_expr.Expr_OBJECT.Enum()},
	{"Mysqlx.Expr.Expr.Type", "ARRAY", 8, int32(mysqlx_expr.Expr_ARRAY), mysqlx_expr.Expr_ARRAY.String(), mysqlx_expr.Expr_ARRAY.Enum()},
	{"Mysqlx.Expr.DocumentPathItem.Type", "MEMBER", 1, int32(mysqlx_expr.DocumentPathItem_MEMBER), mysqlx_expr.DocumentPathItem_MEMBER.String(), mysqlx_expr.DocumentPathItem_MEMBER.Enum()},
	{"Mysqlx.Expr.DocumentPathItem.Type", "MEMBER_ASTERISK", 2, int32(mysqlx_expr.DocumentPathItem_MEMBER_ASTERISK), mysqlx_expr.DocumentPathItem_MEMBER_ASTERISK.String(), mysqlx_expr.DocumentPathItem_MEMBER_ASTERISK.Enum()},
	{"Mysqlx.Expr.DocumentPathItem.Type", "ARRAY_INDEX", 3, int32(mysqlx_expr.DocumentPathItem_ARRAY_INDEX), mysqlx_expr.DocumentPathItem_ARRAY_INDEX.String(), mysqlx_expr.DocumentPathItem_ARRAY_INDEX.Enum()},
	{"Mysqlx.Expr.DocumentPathItem.Type", "ARRAY_INDEX_ASTERISK", 4, int32(mysqlx_expr.DocumentPathItem_ARRAY_INDEX_ASTERISK), mysqlx_expr.DocumentPathItem_ARRAY_INDEX_ASTERISK.String(), mysqlx_expr.DocumentPathItem_ARRAY_INDEX_ASTERISK.Enum()},
	{"Mysqlx.Expr.DocumentPathItem.Type", "DOUBLE_ASTERISK", 5, int32(mysqlx_expr.DocumentPathItem_DOUBLE_ASTERISK), mysqlx_expr.DocumentPathItem_DOUBLE_ASTERISK.String(), mysqlx_expr.DocumentPathItem_DOUBLE_ASTERISK.Enum()},
	{"Mysqlx.Notice.Frame.Scope", "GLOBAL", 1, int32(mysqlx_notice.Frame_GLOBAL), mysqlx_notice.Frame_GLOBAL.String(), mysqlx_notice.Frame_GLOBAL.Enum()},
	{"Mysqlx.Notice.Frame.Scope", "LOCAL", 2, int32(mysqlx_notice.Frame_LOCAL), mysqlx_notice.Frame_LOCAL.String(), mysqlx_notice.Frame_LOCAL.Enum()},
	{"Mysqlx.Notice.Frame.Type", "WARNING", 1, int32(mysqlx_notice.Frame_WARNING), mysqlx_notice.Frame_WARNING.String(), mysqlx_notice.Frame_WARNING.Enum()},
	{"Mysqlx.Notice.Frame.Type", "SESSION_VARIABLE_CHANGED", 2, int32(mysqlx_notice.Frame_SESSION_VARIABLE_CHANGED), mysqlx_notice.Frame_SESSION_VARIABLE_CHANGED.String(), mysqlx_notice.Frame_SESSION_VARIABLE_CHANGED.Enum()},
	{"Mysqlx.Notice.Frame.Type", "SESSION_STATE_CHANGED", 3, int32(mysqlx_notice.Frame_SESSION_STATE_CHANGED), mysqlx_notice.Frame_SESSION_STATE_CHANGED.String(), mysqlx_notice.Frame_SESSION_STATE_CHANGED.Enum()},
	{"Mysqlx.Notice.Frame.Type", "GROUP_REPLICATION_STATE_CHANGED", 4, int32(mysqlx_notice.Frame_GROUP_REPLICATION_STATE_CHANGED), mysqlx_notice.Frame_GROUP_REPLICATION_STATE_CHANGED.String(), mysqlx_notice.Frame_GROUP_REPLICATION_STATE_CHANGED.Enum()},
	{"Mysqlx.Notice.Frame.Type", "SERVER_HELLO", 5, int32(mysqlx_notice.Frame_SERVER_HELLO), mysqlx_notice.Frame_SERVER_HELLO.String(), mysqlx_notice.Frame_SERVER_HELLO.Enum()},
	{"Mysqlx.Notice.Warning.Level", "NOTE", 1, int32(mysqlx_notice.Warning_NOTE), mysqlx_notice.Warning_NOTE.String(), mysqlx_notice.Warning_NOTE.Enum()},
	{"Mysqlx.Notice.Warning.Level", "WARNING", 2, int32(mysqlx_notice.Warning_WARNING), mysqlx_notice.Warning_WARNING.String(), mysqlx_notice.Warning_WARNING.Enum()},
	{"Mysqlx.Notice.Warning.Level", "ERROR", 3, int32(mysqlx_notice.Warning_ERROR), mysqlx_notice.Warning_ERROR.String(), mysqlx_notice.Warning_ERROR.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "CURRENT_SCHEMA", 1, int32(mysqlx_notice.SessionStateChanged_CURRENT_SCHEMA), mysqlx_notice.SessionStateChanged_CURRENT_SCHEMA.String(), mysqlx_notice.SessionStateChanged_CURRENT_SCHEMA.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "ACCOUNT_EXPIRED", 2, int32(mysqlx_notice.SessionStateChanged_ACCOUNT_EXPIRED), mysqlx_notice.SessionStateChanged_ACCOUNT_EXPIRED.String(), mysqlx_notice.SessionStateChanged_ACCOUNT_EXPIRED.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "GENERATED_INSERT_ID", 3, int32(mysqlx_notice.SessionStateChanged_GENERATED_INSERT_ID), mysqlx_notice.SessionStateChanged_GENERATED_INSERT_ID.String(), mysqlx_notice.SessionStateChanged_GENERATED_INSERT_ID.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "ROWS_AFFECTED", 4, int32(mysqlx_notice.SessionStateChanged_ROWS_AFFECTED), mysqlx_notice.SessionStateChanged_ROWS_AFFECTED.String(), mysqlx_notice.SessionStateChanged_ROWS_AFFECTED.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "ROWS_FOUND", 5, int32(mysqlx_notice.SessionStateChanged_ROWS_FOUND), mysqlx_notice.SessionStateChanged_ROWS_FOUND.String(), mysqlx_notice.SessionStateChanged_ROWS_FOUND.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "ROWS_MATCHED", 6, int32(mysqlx_notice.SessionStateChanged_ROWS_MATCHED), mysqlx_notice.SessionStateChanged_ROWS_MATCHED.String(), mysqlx_notice.SessionStateChanged_ROWS_MATCHED.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "TRX_COMMITTED", 7, int32(mysqlx_notice.SessionStateChanged_TRX_COMMITTED), mysqlx_notice.SessionStateChanged_TRX_COMMITTED.String(), mysqlx_notice.SessionStateChanged_TRX_COMMITTED.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "TRX_ROLLEDBACK", 9, int32(mysqlx_notice.SessionStateChanged_TRX_ROLLEDBACK), mysqlx_notice.SessionStateChanged_TRX_ROLLEDBACK.String(), mysqlx_notice.SessionStateChanged_TRX_ROLLEDBACK.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "PRODUCED_MESSAGE", 10, int32(mysqlx_notice.SessionStateChanged_PRODUCED_MESSAGE), mysqlx_notice.SessionStateChanged_PRODUCED_MESSAGE.String(), mysqlx_notice.SessionStateChanged_PRODUCED_MESSAGE.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "CLIENT_ID_ASSIGNED", 11, int32(mysqlx_notice.SessionStateChanged_CLIENT_ID_ASSIGNED), mysqlx_notice.SessionStateChanged_CLIENT_ID_ASSIGNED.String(), mysqlx_notice.SessionStateChanged_CLIENT_ID_ASSIGNED.Enum()},
	{"Mysqlx.Notice.SessionStateChanged.Parameter", "GENERATED_DOCUMENT_IDS", 12, int32(mysqlx_notice.SessionStateChanged_GENERATED_DOCUMENT_IDS), mysqlx_notice.SessionStateChanged_GENERATED_DOCUMENT_IDS.String(), mysqlx_notice.SessionStateChanged_GENERATED_DOCUMENT_IDS.Enum()},
	{"Mysqlx.Notice.GroupReplicationStateChanged.Type", "MEMBERSHIP_QUORUM_LOSS", 1, int32(mysqlx_notice.GroupReplicationStateChanged_MEMBERSHIP_QUORUM_LOSS), mysqlx_notice.GroupReplicationStateChanged_MEMBERSHIP_QUORUM_LOSS.String(), mysqlx_notice.GroupReplicationStateChanged_MEMBERSHIP_QUORUM_LOSS.Enum()},
	{"Mysqlx.Notice.GroupReplicationStateChanged.Type", "MEMBERSHIP_VIEW_CHANGE", 2, int32(mysqlx_notice.GroupReplicationStateChanged_MEMBERSHIP_VIEW_CHANGE), mysqlx_notice.GroupReplicationStateChanged_MEMBERSHIP_VIEW_CHANGE.String(), mysqlx_notice.GroupReplicationStateChanged_MEMBERSHIP_VIEW_CHANGE.Enum()},
	{"Mysqlx.Notice.GroupReplicationStateChanged.Type", "MEMBER_ROLE_CHANGE", 3, int32(mysqlx_notice.GroupReplicationStateChanged_MEMBER_ROLE_CHANGE), mysqlx_notice.GroupReplicationStateChanged_MEMBER_ROLE_CHANGE.String(), mysqlx_notice.GroupReplicationStateChanged_MEMBER_ROLE_CHANGE.Enum()},
	{"Mysqlx.Notice.GroupReplicationStateChanged.Type", "MEMBER_STATE_CHANGE", 4, int32(mysqlx_notice.GroupReplicationStateChanged_MEMBER_STATE_CHANGE), mysqlx_notice.GroupReplicationStateChanged_MEMBER_STATE_CHANGE.String(), mysqlx_notice.GroupReplicationStateChanged_MEMBER_STATE_CHANGE.Enum()},
	{"Mysqlx.Prepare.Prepare.OneOfMessage.Type", "FIND", 0, int32(mysqlx_prepare.Prepare_OneOfMessage_FIND), mysqlx_prepare.Prepare_OneOfMessage_FIND.String(), mysqlx_prepare.Prepare_OneOfMessage_FIND.Enum()},
	{"Mysqlx.Prepare.Prepare.OneOfMessage.Type", "INSERT", 1, int32(mysqlx_prepare.Prepare_OneOfMessage_INSERT), mysqlx_prepare.Prepare_OneOfMessage_INSERT.String(), mysqlx_prepare.Prepare_OneOfMessage_INSERT.Enum()},
	{"Mysqlx.Prepare.Prepare.OneOfMessage.Type", "UPDATE", 2, int32(mysqlx_prepare.Prepare_OneOfMessage_UPDATE), mysqlx_prepare.Prepare_OneOfMessage_UPDATE.String(), mysqlx_prepare.Prepare_OneOfMessage_UPDATE.Enum()},
	{"Mysqlx.Prepare.Prepare.OneOfMessage.Type", "DELETE", 4, int32(mysqlx_prepare.Prepare_OneOfMessage_DELETE), mysqlx_prepare.Prepare_OneOfMessage_DELETE.String(), mysqlx_prepare.Prepare_OneOfMessage_DELETE.Enum()},
	{"Mysqlx.Prepare.Prepare.OneOfMessage.Type", "STMT", 5, int32(mysqlx_prepare.Prepare_OneOfMessage_STMT), mysqlx_prepare.Prepare_OneOfMessage_STMT.String(), mysqlx_prepare.Prepare_OneOfMessage_STMT.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "SINT", 1, int32(mysqlx_resultset.ColumnMetaData_SINT), mysqlx_resultset.ColumnMetaData_SINT.String(), mysqlx_resultset.ColumnMetaData_SINT.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "UINT", 2, int32(mysqlx_resultset.ColumnMetaData_UINT), mysqlx_resultset.ColumnMetaData_UINT.String(), mysqlx_resultset.ColumnMetaData_UINT.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "DOUBLE", 5, int32(mysqlx_resultset.ColumnMetaData_DOUBLE), mysqlx_resultset.ColumnMetaData_DOUBLE.String(), mysqlx_resultset.ColumnMetaData_DOUBLE.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "FLOAT", 6, int32(mysqlx_resultset.ColumnMetaData_FLOAT), mysqlx_resultset.ColumnMetaData_FLOAT.String(), mysqlx_resultset.ColumnMetaData_FLOAT.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "BYTES", 7, int32(mysqlx_resultset.ColumnMetaData_BYTES), mysqlx_resultset.ColumnMetaData_BYTES.String(), mysqlx_resultset.ColumnMetaData_BYTES.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "TIME", 10, int32(mysqlx_resultset.ColumnMetaData_TIME), mysqlx_resultset.ColumnMetaData_TIME.String(), mysqlx_resultset.ColumnMetaData_TIME.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "DATETIME", 12, int32(mysqlx_resultset.ColumnMetaData_DATETIME), mysqlx_resultset.ColumnMetaData_DATETIME.String(), mysqlx_resultset.ColumnMetaData_DATETIME.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "SET", 15, int32(mysqlx_resultset.ColumnMetaData_SET), mysqlx_resultset.ColumnMetaData_SET.String(), mysqlx_resultset.ColumnMetaData_SET.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "ENUM", 16, int32(mysqlx_resultset.ColumnMetaData_ENUM), mysqlx_resultset.ColumnMetaData_ENUM.String(), mysqlx_resultset.ColumnMetaData_ENUM.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "BIT", 17, int32(mysqlx_resultset.ColumnMetaData_BIT), mysqlx_resultset.ColumnMetaData_BIT.String(), mysqlx_resultset.ColumnMetaData_BIT.Enum()},
	{"Mysqlx.Resultset.ColumnMetaData.FieldType", "DECIMAL", 18, int32(mysqlx_resultset.ColumnMetaData_DECIMAL), mysqlx_resultset.ColumnMetaData_DECIMAL.String(), mysqlx_resultset.ColumnMetaData_DECIMAL.Enum()},
	{"Mysqlx.Resultset.ContentType_BYTES", "GEOMETRY", 1, int32(mysqlx_resultset.ContentType_BYTES_GEOMETRY), mysqlx_resultset.ContentType_BYTES_GEOMETRY.String(), mysqlx_resultset.ContentType_BYTES_GEOMETRY.Enum()},
	{"Mysqlx.Resultset.ContentType_BYTES", "JSON", 2, int32(mysqlx_resultset.ContentType_BYTES_JSON), mysqlx_resultset.ContentType_BYTES_JSON.String(), mysqlx_resultset.ContentType_BYTES_JSON.Enum()},
	{"Mysqlx.Resultset.ContentType_BYTES", "XML", 3, int32(mysqlx_resultset.ContentType_BYTES_XML), mysqlx_resultset.ContentType_BYTES_XML.String(), mysqlx_resultset.ContentType_BYTES_XML.Enum()},
	{"Mysqlx.Resultset.ContentType_DATETIME", "DATE", 1, int32(mysqlx_resultset.ContentType_DATETIME_DATE), mysqlx_resultset.ContentType_DATETIME_DATE.String(), mysqlx_resultset.ContentType_DATETIME_DATE.Enum()},
	{"Mysqlx.Resultset.ContentType_DATETIME", "DATETIME", 2, int32(mysqlx_resultset.ContentType_DATETIME_DATETIME), mysqlx_resultset.ContentType_DATETIME_DATETIME.String(), mysqlx_resultset.ContentType_DATETIME_DATETIME.Enum()},
}
