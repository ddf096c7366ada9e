package c20

import "github.com/renthraysk/xtorm/collation"

// Code generated by tools/mkcollations.py.

var table = []struct {
	ident string
	c     collation.Collation
	id    uint64
	name  string
}{
	{"Big5ChineseCi", collation.Big5ChineseCi, 1, "big5_chinese_ci"},
	{"Latin2CzechCs", collation.Latin2CzechCs, 2, "latin2_czech_cs"},
	{"Dec8SwedishCi", collation.Dec8SwedishCi, 3, "dec8_swedish_ci"},
	{"Cp850GeneralCi", collation.Cp850GeneralCi, 4, "cp850_general_ci"},
	{"Latin1German1Ci", collation.Latin1German1Ci, 5, "latin1_german1_ci"},
	{"Hp8EnglishCi", collation.Hp8EnglishCi, 6, "hp8_english_ci"},
	{"Koi8rGeneralCi", collation.Koi8rGeneralCi, 7, "koi8r_general_ci"},
	{"Latin1SwedishCi", collation.Latin1SwedishCi, 8, "latin1_swedish_ci"},
	{"Latin2GeneralCi", collation.Latin2GeneralCi, 9, "latin2_general_ci"},
	{"Swe7SwedishCi", collation.Swe7SwedishCi, 10, "swe7_swedish_ci"},
	{"ASCIIGeneralCi", collation.ASCIIGeneralCi, 11, "ascii_general_ci"},
	{"UjisJapaneseCi", collation.UjisJapaneseCi, 12, "ujis_japanese_ci"},
	{"SjisJapaneseCi", collation.SjisJapaneseCi, 13, "sjis_japanese_ci"},
	{"Cp1251BulgarianCi", collation.Cp1251BulgarianCi, 14, "cp1251_bulgarian_ci"},
	{"Latin1DanishCi", collation.Latin1DanishCi, 15, "latin1_danish_ci"},
	{"HebrewGeneralCi", collation.HebrewGeneralCi, 16, "hebrew_general_ci"},
	{"Tis620ThaiCi", collation.Tis620ThaiCi, 18, "tis620_thai_ci"},
	{"EuckrKoreanCi", collation.EuckrKoreanCi, 19, "euckr_korean_ci"},
	{"Latin7EstonianCs", collation.Latin7EstonianCs, 20, "latin7_estonian_cs"},
	{"Latin2HungarianCi", collation.Latin2HungarianCi, 21, "latin2_hungarian_ci"},
	{"Koi8uGeneralCi", collation.Koi8uGeneralCi, 22, "koi8u_general_ci"},
	{"Cp1251UkrainianCi", collation.Cp1251UkrainianCi, 23, "cp1251_ukrainian_ci"},
	{"Gb2312ChineseCi", collation.Gb2312ChineseCi, 24, "gb2312_chinese_ci"},
	{"GreekGeneralCi", collation.GreekGeneralCi, 25, "greek_general_ci"},
	{"Cp1250GeneralCi", collation.Cp1250GeneralCi, 26, "cp1250_general_ci"},
	{"Latin2CroatianCi", collation.Latin2CroatianCi, 27, "latin2_croatian_ci"},
	{"GbkChineseCi", collation.GbkChineseCi, 28, "gbk_chinese_ci"},
	{"Cp1257LithuanianCi", collation.Cp1257LithuanianCi, 29, "cp1257_lithuanian_ci"},
	{"Latin5TurkishCi", collation.Latin5TurkishCi, 30, "latin5_turkish_ci"},
	{"Latin1German2Ci", collation.Latin1German2Ci, 31, "latin1_german2_ci"},
	{"Armscii8GeneralCi", collation.Armscii8GeneralCi, 32, "armscii8_general_ci"},
	{"UTF8GeneralCi", collation.UTF8GeneralCi, 33, "utf8_general_ci"},
	{"Cp1250CzechCs", collation.Cp1250CzechCs, 34, "cp1250_czech_cs"},
	{"UCS2GeneralCi", collation.UCS2GeneralCi, 35, "ucs2_general_ci"},
	{"Cp866GeneralCi", collation.Cp866GeneralCi, 36, "cp866_general_ci"},
	{"Keybcs2GeneralCi", collation.Keybcs2GeneralCi, 37, "keybcs2_general_ci"},
	{"MacceGeneralCi", collation.MacceGeneralCi, 38, "macce_general_ci"},
	{"MacromanGeneralCi", collation.MacromanGeneralCi, 39, "macroman_general_ci"},
	{"Cp852GeneralCi", collation.Cp852GeneralCi, 40, "cp852_general_ci"},
	{"Latin7GeneralCi", collation.Latin7GeneralCi, 41, "latin7_general_ci"},
	{"Latin7GeneralCs", collation.Latin7GeneralCs, 42, "latin7_general_cs"},
	{"MacceBin", collation.MacceBin, 43, "macce_bin"},
	{"Cp1250CroatianCi", collation.Cp1250CroatianCi, 44, "cp1250_croatian_ci"},
	{"UTF8mb4GeneralCi", collation.UTF8mb4GeneralCi, 45, "utf8mb4_general_ci"},
	{"UTF8mb4Bin", collation.UTF8mb4Bin, 46, "utf8mb4_bin"},
	{"Latin1Bin", collation.Latin1Bin, 47, "latin1_bin"},
	{"Latin1GeneralCi", collation.Latin1GeneralCi, 48, "latin1_general_ci"},
	{"Latin1GeneralCs", collation.Latin1GeneralCs, 49, "latin1_general_cs"},
	{"Cp1251Bin", collation.Cp1251Bin, 50, "cp1251_bin"},
	{"Cp1251GeneralCi", collation.Cp1251GeneralCi, 51, "cp1251_general_ci"},
	{"Cp1251GeneralCs", collation.Cp1251GeneralCs, 52, "cp1251_general_cs"},
	{"MacromanBin", collation.MacromanBin, 53, "macroman_bin"},
	{"UTF16GeneralCi", collation.UTF16GeneralCi, 54, "utf16_general_ci"},
	{"UTF16Bin", collation.UTF16Bin, 55, "utf16_bin"},
	{"UTF16leGeneralCi", collation.UTF16leGeneralCi, 56, "utf16le_general_ci"},
	{"Cp1256GeneralCi", collation.Cp1256GeneralCi, 57, "cp1256_general_ci"},
	{"Cp1257Bin", collation.Cp1257Bin, 58, "cp1257_bin"},
	{"Cp1257GeneralCi", collation.Cp1257GeneralCi, 59, "cp1257_general_ci"},
	{"UTF32GeneralCi", collation.UTF32GeneralCi, 60, "utf32_general_ci"},
	{"UTF32Bin", collation.UTF32Bin, 61, "utf32_bin"},
	{"UTF16leBin", collation.UTF16leBin, 62, "utf16le_bin"},
	{"Binary", collation.Binary, 63, "binary"},
	{"Armscii8Bin", collation.Armscii8Bin, 64, "armscii8_bin"},
	{"ASCIIBin", collation.ASCIIBin, 65, "ascii_bin"},
	{"Cp1250Bin", collation.Cp1250Bin, 66, "cp1250_bin"},
	{"Cp1256Bin", collation.Cp1256Bin, 67, "cp1256_bin"},
	{"Cp866Bin", collation.Cp866Bin, 68, "cp866_bin"},
	{"Dec8Bin", collation.Dec8Bin, 69, "dec8_bin"},
	{"GreekBin", collation.GreekBin, 70, "greek_bin"},
	{"HebrewBin", collation.HebrewBin, 71, "hebrew_bin"},
	{"Hp8Bin", collation.Hp8Bin, 72, "hp8_bin"},
	{"Keybcs2Bin", collation.Keybcs2Bin, 73, "keybcs2_bin"},
	{"Koi8rBin", collation.Koi8rBin, 74, "koi8r_bin"},
	{"Koi8uBin", collation.Koi8uBin, 75, "koi8u_bin"},
	{"UTF8TolowerCi", collation.UTF8TolowerCi, 76, "utf8_tolower_ci"},
	{"Latin2Bin", collation.Latin2Bin, 77, "latin2_bin"},
	{"Latin5Bin", collation.Latin5Bin, 78, "latin5_bin"},
	{"Latin7Bin", collation.Latin7Bin, 79, "latin7_bin"},
	{"Cp850Bin", collation.Cp850Bin, 80, "cp850_bin"},
	{"Cp852Bin", collation.Cp852Bin, 81, "cp852_bin"},
	{"Swe7Bin", collation.Swe7Bin, 82, "swe7_bin"},
	{"UTF8Bin", collation.UTF8Bin, 83, "utf8_bin"},
	{"Big5Bin", collation.Big5Bin, 84, "big5_bin"},
	{"EuckrBin", collation.EuckrBin, 85, "euckr_bin"},
	{"Gb2312Bin", collation.Gb2312Bin, 86, "gb2312_bin"},
	{"GbkBin", collation.GbkBin, 87, "gbk_bin"},
	{"SjisBin", collation.SjisBin, 88, "sjis_bin"},
	{"Tis620Bin", collation.Tis620Bin, 89, "tis620_bin"},
	{"UCS2Bin", collation.UCS2Bin, 90, "ucs2_bin"},
	{"UjisBin", collation.UjisBin, 91, "ujis_bin"},
	{"Geostd8GeneralCi", collation.Geostd8GeneralCi, 92, "geostd8_general_ci"},
	{"Geostd8Bin", collation.Geostd8Bin, 93, "geostd8_bin"},
	{"Latin1SpanishCi", collation.Latin1SpanishCi, 94, "latin1_spanish_ci"},
	{"Cp932JapaneseCi", collation.Cp932JapaneseCi, 95, "cp932_japanese_ci"},
	{"Cp932Bin", collation.Cp932Bin, 96, "cp932_bin"},
	{"EucjpmsJapaneseCi", collation.EucjpmsJapaneseCi, 97, "eucjpms_japanese_ci"},
	{"EucjpmsBin", collation.EucjpmsBin, 98, "eucjpms_bin"},
	{"Cp1250PolishCi", collation.Cp1250PolishCi, 99, "cp1250_polish_ci"},
	{"UTF16UnicodeCi", collation.UTF16UnicodeCi, 101, "utf16_unicode_ci"},
	{"UTF16IcelandicCi", collation.UTF16IcelandicCi, 102, "utf16_icelandic_ci"},
	{"UTF16LatvianCi", collation.UTF16LatvianCi, 103, "utf16_latvian_ci"},
	{"UTF16RomanianCi", collation.UTF16RomanianCi, 104, "utf16_romanian_ci"},
	{"UTF16SlovenianCi", collation.UTF16SlovenianCi, 105, "utf16_slovenian_ci"},
	{"UTF16PolishCi", collation.UTF16PolishCi, 106, "utf16_polish_ci"},
	{"UTF16EstonianCi", collation.UTF16EstonianCi, 107, "utf16_estonian_ci"},
	{"UTF16SpanishCi", collation.UTF16SpanishCi, 108, "utf16_spanish_ci"},
	{"UTF16SwedishCi", collation.UTF16SwedishCi, 109, "utf16_swedish_ci"},
	{"UTF16TurkishCi", collation.UTF16TurkishCi, 110, "utf16_turkish_ci"},
	{"UTF16CzechCi", collation.UTF16CzechCi, 111, "utf16_czech_ci"},
	{"UTF16DanishCi", collation.UTF16DanishCi, 112, "utf16_danish_ci"},
	{"UTF16LithuanianCi", collation.UTF16LithuanianCi, 113, "utf16_lithuanian_ci"},
	{"UTF16SlovakCi", collation.UTF16SlovakCi, 114, "utf16_slovak_ci"},
	{"UTF16Spanish2Ci", collation.UTF16Spanish2Ci, 115, "utf16_spanish2_ci"},
	{"UTF16RomanCi", collation.UTF16RomanCi, 116, "utf16_roman_ci"},
	{"UTF16PersianCi", collation.UTF16PersianCi, 117, "utf16_persian_ci"},
	{"UTF16EsperantoCi", collation.UTF16EsperantoCi, 118, "utf16_esperanto_ci"},
	{"UTF16HungarianCi", collation.UTF16HungarianCi, 119, "utf16_hungarian_ci"},
	{"UTF16SinhalaCi", collation.UTF16SinhalaCi, 120, "utf16_sinhala_ci"},
	{"UTF16German2Ci", collation.UTF16German2Ci, 121, "utf16_german2_ci"},
	{"UTF16CroatianCi", collation.UTF16CroatianCi, 122, "utf16_croatian_ci"},
	{"UTF16Unicode520Ci", collation.UTF16Unicode520Ci, 123, "utf16_unicode_520_ci"},
	{"UTF16VietnameseCi", collation.UTF16VietnameseCi, 124, "utf16_vietnamese_ci"},
	{"UCS2UnicodeCi", collation.UCS2UnicodeCi, 128, "ucs2_unicode_ci"},
	{"UCS2IcelandicCi", collation.UCS2IcelandicCi, 129, "ucs2_icelandic_ci"},
	{"UCS2LatvianCi", collation.UCS2LatvianCi, 130, "ucs2_latvian_ci"},
	{"UCS2RomanianCi", collation.UCS2RomanianCi, 131, "ucs2_romanian_ci"},
	{"UCS2SlovenianCi", collation.UCS2SlovenianCi, 132, "ucs2_slovenian_ci"},
	{"UCS2PolishCi", collation.UCS2PolishCi, 133, "ucs2_polish_ci"},
	{"UCS2EstonianCi", collation.UCS2EstonianCi, 134, "ucs2_estonian_ci"},
	{"UCS2SpanishCi", collation.UCS2SpanishCi, 135, "ucs2_spanish_ci"},
	{"UCS2SwedishCi", collation.UCS2SwedishCi, 136, "ucs2_swedish_ci"},
	{"UCS2TurkishCi", collation.UCS2TurkishCi, 137, "ucs2_turkish_ci"},
	{"UCS2CzechCi", collation.UCS2CzechCi, 138, "ucs2_czech_ci"},
	{"UCS2DanishCi", collation.UCS2DanishCi, 139, "ucs2_danish_ci"},
	{"UCS2LithuanianCi", collation.UCS2LithuanianCi, 140, "ucs2_lithuanian_ci"},
	{"UCS2SlovakCi", collation.UCS2SlovakCi, 141, "ucs2_slovak_ci"},
	{"UCS2Spanish2Ci", collation.UCS2Spanish2Ci, 142, "ucs2_spanish2_ci"},
	{"UCS2RomanCi", collation.UCS2RomanCi, 143, "ucs2_roman_ci"},
	{"UCS2PersianCi", collation.UCS2PersianCi, 144, "ucs2_persian_ci"},
	{"UCS2EsperantoCi", collation.UCS2EsperantoCi, 145, "ucs2_esperanto_ci"},
	{"UCS2HungarianCi", collation.UCS2HungarianCi, 146, "ucs2_hungarian_ci"},
	{"UCS2SinhalaCi", collation.UCS2SinhalaCi, 147, "ucs2_sinhala_ci"},
	{"UCS2German2Ci", collation.UCS2German2Ci, 148, "ucs2_german2_ci"},
	{"UCS2CroatianCi", collation.UCS2CroatianCi, 149, "ucs2_croatian_ci"},
	{"UCS2Unicode520Ci", collation.UCS2Unicode520Ci, 150, "ucs2_unicode_520_ci"},
	{"UCS2VietnameseCi", collation.UCS2VietnameseCi, 151, "ucs2_vietnamese_ci"},
	{"UCS2GeneralMySQL500Ci", collation.UCS2GeneralMySQL500Ci, 159, "ucs2_general_mysql500_ci"},
	{"UTF32UnicodeCi", collation.UTF32UnicodeCi, 160, "utf32_unicode_ci"},
	{"UTF32IcelandicCi", collation.UTF32IcelandicCi, 161, "utf32_icelandic_ci"},
	{"UTF32LatvianCi", collation.UTF32LatvianCi, 162, "utf32_latvian_ci"},
	{"UTF32RomanianCi", collation.UTF32RomanianCi, 163, "utf32_romanian_ci"},
	{"UTF32SlovenianCi", collation.UTF32SlovenianCi, 164, "utf32_slovenian_ci"},
	{"UTF32PolishCi", collation.UTF32PolishCi, 165, "utf32_polish_ci"},
	{"UTF32EstonianCi", collation.UTF32EstonianCi, 166, "utf32_estonian_ci"},
	{"UTF32SpanishCi", collation.UTF32SpanishCi, 167, "utf32_spanish_ci"},
	{"UTF32SwedishCi", collation.UTF32SwedishCi, 168, "utf32_swedish_ci"},
	{"UTF32TurkishCi", collation.UTF32TurkishCi, 169, "utf32_turkish_ci"},
	{"UTF32CzechCi", collation.UTF32CzechCi, 170, "utf32_czech_ci"},
	{"UTF32DanishCi", collation.UTF32DanishCi, 171, "utf32_danish_ci"},
	{"UTF32LithuanianCi", collation.UTF32LithuanianCi, 172, "utf32_lithuanian_ci"},
	{"UTF32SlovakCi", collation.UTF32SlovakCi, 173, "utf32_slovak_ci"},
	{"UTF32Spanish2Ci", collation.UTF32Spanish2Ci, 174, "utf32_spanish2_ci"},
	{"UTF32RomanCi", collation.UTF32RomanCi, 175, "utf32_roman_ci"},
	{"UTF32PersianCi", collation.UTF32PersianCi, 176, "utf32_persian_ci"},
	{"UTF32EsperantoCi", collation.UTF32EsperantoCi, 177, "utf32_esperanto_ci"},
	{"UTF32HungarianCi", collation.UTF32HungarianCi, 178, "utf32_hungarian_ci"},
	{"UTF32SinhalaCi", collation.UTF32SinhalaCi, 179, "utf32_sinhala_ci"},
	{"UTF32German2Ci", collation.UTF32German2Ci, 180, "utf32_german2_ci"},
	{"UTF32CroatianCi", collation.UTF32CroatianCi, 181, "utf32_croatian_ci"},
	{"UTF32Unicode520Ci", collation.UTF32Unicode520Ci, 182, "utf32_unicode_520_ci"},
	{"UTF32VietnameseCi", collation.UTF32VietnameseCi, 183, "utf32_vietnamese_ci"},
	{"UTF8UnicodeCi", collation.UTF8UnicodeCi, 192, "utf8_unicode_ci"},
	{"UTF8IcelandicCi", collation.UTF8IcelandicCi, 193, "utf8_icelandic_ci"},
	{"UTF8LatvianCi", collation.UTF8LatvianCi, 194, "utf8_latvian_ci"},
	{"UTF8RomanianCi", collation.UTF8RomanianCi, 195, "utf8_romanian_ci"},
	{"UTF8SlovenianCi", collation.UTF8SlovenianCi, 196, "utf8_slovenian_ci"},
	{"UTF8PolishCi", collation.UTF8PolishCi, 197, "utf8_polish_ci"},
	{"UTF8EstonianCi", collation.UTF8EstonianCi, 198, "utf8_estonian_ci"},
	{"UTF8SpanishCi", collation.UTF8SpanishCi, 199, "utf8_spanish_ci"},
	{"UTF8SwedishCi", collation.UTF8SwedishCi, 200, "utf8_swedish_ci"},
	{"UTF8TurkishCi", collation.UTF8TurkishCi, 201, "utf8_turkish_ci"},
	{"UTF8CzechCi", collation.UTF8CzechCi, 202, "utf8_czech_ci"},
	{"UTF8DanishCi", collation.UTF8DanishCi, 203, "utf8_danish_ci"},
	{"UTF8LithuanianCi", collation.UTF8LithuanianCi, 204, "utf8_lithuanian_ci"},
	{"UTF8SlovakCi", collation.UTF8SlovakCi, 205, "utf8_slovak_ci"},
	{"UTF8Spanish2Ci", collation.UTF8Spanish2Ci, 206, "utf8_spanish2_ci"},
	{"UTF8RomanCi", collation.UTF8RomanCi, 207, "utf8_roman_ci"},
	{"UTF8PersianCi", collation.UTF8PersianCi, 208, "utf8_persian_ci"},
	{"UTF8EsperantoCi", collation.UTF8EsperantoCi, 209, "utf8_esperanto_ci"},
	{"UTF8HungarianCi", collation.UTF8HungarianCi, 210, "utf8_hungarian_ci"},
	{"UTF8SinhalaCi", collation.UTF8SinhalaCi, 211, "utf8_sinhala_ci"},
	{"UTF8German2Ci", collation.UTF8German2Ci, 212, "utf8_german2_ci"},
	{"UTF8CroatianCi", collation.UTF8CroatianCi, 213, "utf8_croatian_ci"},
	{"UTF8Unicode520Ci", collation.UTF8Unicode520Ci, 214, "utf8_unicode_520_ci"},
	{"UTF8VietnameseCi", collation.UTF8VietnameseCi, 215, "utf8_vietnamese_ci"},
	{"UTF8GeneralMySQL500Ci", collation.UTF8GeneralMySQL500Ci, 223, "utf8_general_mysql500_ci"},
	{"UTF8mb4UnicodeCi", collation.UTF8mb4UnicodeCi, 224, "utf8mb4_unicode_ci"},
	{"UTF8mb4IcelandicCi", collation.UTF8mb4IcelandicCi, 225, "utf8mb4_icelandic_ci"},
	{"UTF8mb4LatvianCi", collation.UTF8mb4LatvianCi, 226, "utf8mb4_latvian_ci"},
	{"UTF8mb4RomanianCi", collation.UTF8mb4RomanianCi, 227, "utf8mb4_romanian_ci"},
	{"UTF8mb4SlovenianCi", collation.UTF8mb4SlovenianCi, 228, "utf8mb4_slovenian_ci"},
	{"UTF8mb4PolishCi", collation.UTF8mb4PolishCi, 229, "utf8mb4_polish_ci"},
	{"UTF8mb4EstonianCi", collation.UTF8mb4EstonianCi, 230, "utf8mb4_estonian_ci"},
	{"UTF8mb4SpanishCi", collation.UTF8mb4SpanishCi, 231, "utf8mb4_spanish_ci"},
	{"UTF8mb4SwedishCi", collation.UTF8mb4SwedishCi, 232, "utf8mb4_swedish_ci"},
	{"UTF8mb4TurkishCi", collation.UTF8mb4TurkishCi, 233, "utf8mb4_turkish_ci"},
	{"UTF8mb4CzechCi", collation.UTF8mb4CzechCi, 234, "utf8mb4_czech_ci"},
	{"UTF8mb4DanishCi", collation.UTF8mb4DanishCi, 235, "utf8mb4_danish_ci"},
	{"UTF8mb4LithuanianCi", collation.UTF8mb4LithuanianCi, 236, "utf8mb4_lithuanian_ci"},
	{"UTF8mb4SlovakCi", collation.UTF8mb4SlovakCi, 237, "utf8mb4_slovak_ci"},
	{"UTF8mb4Spanish2Ci", collation.UTF8mb4Spanish2Ci, 238, "utf8mb4_spanish2_ci"},
	{"UTF8mb4RomanCi", collation.UTF8mb4RomanCi, 239, "utf8mb4_roman_ci"},
	{"UTF8mb4PersianCi", collation.UTF8mb4PersianCi, 240, "utf8mb4_persian_ci"},
	{"UTF8mb4EsperantoCi", collation.UTF8mb4EsperantoCi, 241, "utf8mb4_esperanto_ci"},
	{"UTF8mb4HungarianCi", collation.UTF8mb4HungarianCi, 242, "utf8mb4_hungarian_ci"},
	{"UTF8mb4SinhalaCi", collation.UTF8mb4SinhalaCi, 243, "utf8mb4_sinhala_ci"},
	{"UTF8mb4German2Ci", collation.UTF8mb4German2Ci, 244, "utf8mb4_german2_ci"},
	{"UTF8mb4CroatianCi", collation.UTF8mb4CroatianCi, 245, "utf8mb4_croatian_ci"},
	{"UTF8mb4Unicode520Ci", collation.UTF8mb4Unicode520Ci, 246, "utf8mb4_unicode_520_ci"},
	{"UTF8mb4VietnameseCi", collation.UTF8mb4VietnameseCi, 247, "utf8mb4_vietnamese_ci"},
	{"Gb18030ChineseCi", collation.Gb18030ChineseCi, 248, "gb18030_chinese_ci"},
	{"Gb18030Bin", collation.Gb18030Bin, 249, "gb18030_bin"},
	{"Gb18030Unicode520Ci", collation.Gb18030Unicode520Ci, 250, "gb18030_unicode_520_ci"},
	{"UTF8mb40900AiCi", collation.UTF8mb40900AiCi, 255, "utf8mb4_0900_ai_ci"},
	{"UTF8mb4DePb0900AiCi", collation.UTF8mb4DePb0900AiCi, 256, "utf8mb4_de_pb_0900_ai_ci"},
	{"UTF8mb4Is0900AiCi", collation.UTF8mb4Is0900AiCi, 257, "utf8mb4_is_0900_ai_ci"},
	{"UTF8mb4Lv0900AiCi", collation.UTF8mb4Lv0900AiCi, 258, "utf8mb4_lv_0900_ai_ci"},
	{"UTF8mb4Ro0900AiCi", collation.UTF8mb4Ro0900AiCi, 259, "utf8mb4_ro_0900_ai_ci"},
	{"UTF8mb4Sl0900AiCi", collation.UTF8mb4Sl0900AiCi, 260, "utf8mb4_sl_0900_ai_ci"},
	{"UTF8mb4Pl0900AiCi", collation.UTF8mb4Pl0900AiCi, 261, "utf8mb4_pl_0900_ai_ci"},
	{"UTF8mb4Et0900AiCi", collation.UTF8mb4Et0900AiCi, 262, "utf8mb4_et_0900_ai_ci"},
	{"UTF8mb4Es0900AiCi", collation.UTF8mb4Es0900AiCi, 263, "utf8mb4_es_0900_ai_ci"},
	{"UTF8mb4Sv0900AiCi", collation.UTF8mb4Sv0900AiCi, 264, "utf8mb4_sv_0900_ai_ci"},
	{"UTF8mb4Tr0900AiCi", collation.UTF8mb4Tr0900AiCi, 265, "utf8mb4_tr_0900_ai_ci"},
	{"UTF8mb4Cs0900AiCi", collation.UTF8mb4Cs0900AiCi, 266, "utf8mb4_cs_0900_ai_ci"},
	{"UTF8mb4Da0900AiCi", collation.UTF8mb4Da0900AiCi, 267, "utf8mb4_da_0900_ai_ci"},
	{"UTF8mb4Lt0900AiCi", collation.UTF8mb4Lt0900AiCi, 268, "utf8mb4_lt_0900_ai_ci"},
	{"UTF8mb4Sk0900AiCi", collation.UTF8mb4Sk0900AiCi, 269, "utf8mb4_sk_0900_ai_ci"},
	{"UTF8mb4EsTrad0900AiCi", collation.UTF8mb4EsTrad0900AiCi, 270, "utf8mb4_es_trad_0900_ai_ci"},
	{"UTF8mb4La0900AiCi", collation.UTF8mb4La0900AiCi, 271, "utf8mb4_la_0900_ai_ci"},
	{"UTF8mb4Eo0900AiCi", collation.UTF8mb4Eo0900AiCi, 273, "utf8mb4_eo_0900_ai_ci"},
	{"UTF8mb4Hu0900AiCi", collation.UTF8mb4Hu0900AiCi, 274, "utf8mb4_hu_0900_ai_ci"},
	{"UTF8mb4Hr0900AiCi", collation.UTF8mb4Hr0900AiCi, 275, "utf8mb4_hr_0900_ai_ci"},
	{"UTF8mb4Vi0900AiCi", collation.UTF8mb4Vi0900AiCi, 277, "utf8mb4_vi_0900_ai_ci"},
	{"UTF8mb40900AsCs", collation.UTF8mb40900AsCs, 278, "utf8mb4_0900_as_cs"},
	{"UTF8mb4DePb0900AsCs", collation.UTF8mb4DePb0900AsCs, 279, "utf8mb4_de_pb_0900_as_cs"},
	{"UTF8mb4Is0900AsCs", collation.UTF8mb4Is0900AsCs, 280, "utf8mb4_is_0900_as_cs"},
	{"UTF8mb4Lv0900AsCs", collation.UTF8mb4Lv0900AsCs, 281, "utf8mb4_lv_0900_as_cs"},
	{"UTF8mb4Ro0900AsCs", collation.UTF8mb4Ro0900AsCs, 282, "utf8mb4_ro_0900_as_cs"},
	{"UTF8mb4Sl0900AsCs", collation.UTF8mb4Sl0900AsCs, 283, "utf8mb4_sl_0900_as_cs"},
	{"UTF8mb4Pl0900AsCs", collation.UTF8mb4Pl0900AsCs, 284, "utf8mb4_pl_0900_as_cs"},
	{"UTF8mb4Et0900AsCs", collation.UTF8mb4Et0900AsCs, 285, "utf8mb4_et_0900_as_cs"},
	{"UTF8mb4Es0900AsCs", collation.UTF8mb4Es0900AsCs, 286, "utf8mb4_es_0900_as_cs"},
	{"UTF8mb4Sv0900AsCs", collation.UTF8mb4Sv0900AsCs, 287, "utf8mb4_sv_0900_as_cs"},
	{"UTF8mb4Tr0900AsCs", collation.UTF8mb4Tr0900AsCs, 288, "utf8mb4_tr_0900_as_cs"},
	{"UTF8mb4Cs0900AsCs", collation.UTF8mb4Cs0900AsCs, 289, "utf8mb4_cs_0900_as_cs"},
	{"UTF8mb4Da0900AsCs", collation.UTF8mb4Da0900AsCs, 290, "utf8mb4_da_0900_as_cs"},
	{"UTF8mb4Lt0900AsCs", collation.UTF8mb4Lt0900AsCs, 291, "utf8mb4_lt_0900_as_cs"},
	{"UTF8mb4Sk0900AsCs", collation.UTF8mb4Sk0900AsCs, 292, "utf8mb4_sk_0900_as_cs"},
	{"UTF8mb4EsTrad0900AsCs", collation.UTF8mb4EsTrad0900AsCs, 293, "utf8mb4_es_trad_0900_as_cs"},
	{"UTF8mb4La0900AsCs", collation.UTF8mb4La0900AsCs, 294, "utf8mb4_la_0900_as_cs"},
	{"UTF8mb4Eo0900AsCs", collation.UTF8mb4Eo0900AsCs, 296, "utf8mb4_eo_0900_as_cs"},
	{"UTF8mb4Hu0900AsCs", collation.UTF8mb4Hu0900AsCs, 297, "utf8mb4_hu_0900_as_cs"},
	{"UTF8mb4Hr0900AsCs", collation.UTF8mb4Hr0900AsCs, 298, "utf8mb4_hr_0900_as_cs"},
	{"UTF8mb4Vi0900AsCs", collation.UTF8mb4Vi0900AsCs, 300, "utf8mb4_vi_0900_as_cs"},
	{"UTF8mb4Ja0900AsCs", collation.UTF8mb4Ja0900AsCs, 303, "utf8mb4_ja_0900_as_cs"},
	{"UTF8mb4Ja0900AsCsKs", collation.UTF8mb4Ja0900AsCsKs, 304, "utf8mb4_ja_0900_as_cs_ks"},
	{"UTF8mb40900AsCi", collation.UTF8mb40900AsCi, 305, "utf8mb4_0900_as_ci"},
	{"UTF8mb4Ru0900AiCi", collation.UTF8mb4Ru0900AiCi, 306, "utf8mb4_ru_0900_ai_ci"},
	{"UTF8mb4Ru0900AsCs", collation.UTF8mb4Ru0900AsCs, 307, "utf8mb4_ru_0900_as_cs"},
}

// later lists collations of later servers: printing them by name is right as well.
var later = map[uint64]string{308: "utf8mb4_zh_0900_as_cs", 309: "utf8mb4_0900_bin"}
