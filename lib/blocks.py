# Unicode blocks (Blocks.txt of Unicode 13) and code sets selected by the filters; scores of the scorers
FILTERS = {
 "ARABIC": [(0x600, 0x6FF), (0x750, 0x77F), (0x8A0, 0x8FF), (0xFB50, 0xFDFF), (0xFE70, 0xFEFF), (0x10A60, 0x10A7F), (0x10A80, 0x10A9F), (0x1EE00, 0x1EEFF)],
 "ARMENIAN": [(0x530, 0x58F)],
 "ARROWS": [(0x2190, 0x21FF), (0x27F0, 0x27FF), (0x2900, 0x297F), (0x2B00, 0x2BFF), (0x1F800, 0x1F8FF)],
 "BRAILLE": [(0x2800, 0x28FF)],
 "CHEROKEE": [(0x13A0, 0x13FF)],
 "CJK": [(0x1100, 0x11FF), (0x2E80, 0x2EFF), (0x2F00, 0x2FDF), (0x2FF0, 0x2FFF), (0x3000, 0x303F), (0x3040, 0x309F), (0x30A0, 0x30FF), (0x3100, 0x312F), (0x3130, 0x318F), (0x3190, 0x319F), (0x31A0, 0x31BF), (0x31C0, 0x31EF), (0x31F0, 0x31FF), (0x3200, 0x32FF), (0x3300, 0x33FF), (0x3400, 0x4DBF), (0x4DC0, 0x4DFF), (0x4E00, 0x9FFF), (0xA000, 0xA48F), (0xA490, 0xA4CF), (0xA960, 0xA97F), (0xAC00, 0xD7AF), (0xD7B0, 0xD7FF), (0xF900, 0xFAFF), (0xFE30, 0xFE4F), (0x1B000, 0x1B0FF), (0x1B100, 0x1B12F), (0x1D300, 0x1D35F), (0x20000, 0x2A6DF), (0x2A700, 0x2B73F), (0x2B740, 0x2B81F), (0x2B820, 0x2CEAF), (0x2CEB0, 0x2EBEF), (0x2F800, 0x2FA1F), (0x30000, 0x3134F)],
 "CUNEIFORM": [(0x12000, 0x123FF), (0x12400, 0x1247F)],
 "CURRENCY": [(0x20A0, 0x20CF)],
 "CYRILLIC": [(0x400, 0x4FF), (0x500, 0x52F), (0x1C80, 0x1C8F), (0x2DE0, 0x2DFF), (0xA640, 0xA69F)],
 "DEVANAGARI": [(0x900, 0x97F), (0xA8E0, 0xA8FF)],
 "EGYPTIAN": [(0x13000, 0x1342F), (0x13430, 0x1343F)],
 "EMOTICON": [(0x1F600, 0x1F64F)],
 "ETHIOPIC": [(0x1200, 0x137F), (0x1380, 0x139F), (0x2D80, 0x2DDF), (0xAB00, 0xAB2F)],
 "GEORGIAN": [(0x10A0, 0x10FF), (0x1C90, 0x1CBF), (0x2D00, 0x2D2F)],
 "GREEK": [(0x370, 0x3FF), (0x1F00, 0x1FFF), (0x10140, 0x1018F), (0x1D200, 0x1D24F)],
 "HANGUL": [(0x1100, 0x11FF), (0x3130, 0x318F), (0xA960, 0xA97F), (0xAC00, 0xD7AF), (0xD7B0, 0xD7FF)],
 "HEBREW": [(0x590, 0x5FF)],
 "HIRAGANA": [(0x3040, 0x309F)],
 "IPA": [(0x250, 0x2AF)],
 "JAVANESE": [(0xA980, 0xA9DF)],
 "KANNADA": [(0xC80, 0xCFF)],
 "KATAKANA": [(0x30A0, 0x30FF), (0x31F0, 0x31FF)],
 "KHMER": [(0x1780, 0x17FF), (0x19E0, 0x19FF)],
 "LAO": [(0xE80, 0xEFF)],
 "LATIN": [(0x0, 0x7F), (0x80, 0xFF), (0x100, 0x17F), (0x180, 0x24F), (0x1E00, 0x1EFF), (0x2C60, 0x2C7F), (0xA720, 0xA7FF), (0xAB30, 0xAB6F)],
 "LATIN1": [(0x0, 0x80), (0x82, 0x8C), (0x8E, 0x8E), (0x91, 0x9C), (0x9E, 0xFF)],
 "MAHJONG": [(0x1F000, 0x1F02F)],
 "MALAYALAM": [(0xD00, 0xD7F)],
 "MATH": [(0x2200, 0x22FF), (0x27C0, 0x27EF), (0x2980, 0x29FF), (0x2A00, 0x2AFF), (0x1D400, 0x1D7FF), (0x1EE00, 0x1EEFF)],
 "MIAO": [(0x16F00, 0x16F9F)],
 "MONGOLIAN": [(0x1800, 0x18AF)],
 "MUSIC": [(0x1D000, 0x1D0FF), (0x1D100, 0x1D1FF), (0x1D200, 0x1D24F)],
 "MYANMAR": [(0x1000, 0x109F), (0xA9E0, 0xA9FF), (0xAA60, 0xAA7F)],
 "PHONETIC": [(0x250, 0x2AF), (0x1D00, 0x1D7F), (0x1D80, 0x1DBF)],
 "PRINT": [(0x20, 0x7E)],
 "PUA": [(0xE000, 0xF8FF), (0xF0000, 0xFFFFF), (0x100000, 0x10FFFF)],
 "PUNCTUATION": [(0x2000, 0x206F), (0x2E00, 0x2E7F), (0x3000, 0x303F), (0x12400, 0x1247F), (0x16FE0, 0x16FFF)],
 "ROMAN": [(0x30, 0x39), (0x41, 0x5A), (0x61, 0x7A)],
 "SAMARITAN": [(0x800, 0x83F)],
 "SINHALA": [(0xD80, 0xDFF), (0x111E0, 0x111FF)],
 "SUNDANESE": [(0x1B80, 0x1BBF), (0x1CC0, 0x1CCF)],
 "SYRIAC": [(0x700, 0x74F)],
 "TAGALOG": [(0x1700, 0x171F)],
 "TAMIL": [(0xB80, 0xBFF)],
 "TELUGU": [(0xC00, 0xC7F)],
 "THAI": [(0xE00, 0xE7F)],
 "TIBETAN": [(0xF00, 0xFFF)],
 "TIFINAGH": [(0x2D30, 0x2D7F)],
 "YI": [(0xA000, 0xA48F), (0xA490, 0xA4CF)],
}
TYPES = {"UNICODE": 1, "CNS11643": 2, "BYTE": 3, "ANSI": 0x1b, "01": 1, "1": 1, "2": 2, "02": 2, "03": 3, "3": 3, "1B": 0x1b}
SCORERS = {
 "CJK": [(0x0, 0x7F, 4), (0x3000, 0x303F, 4), (0x3040, 0x309F, 5), (0x30A0, 0x30FF, 5), (0x3100, 0x312F, 4), (0x3400, 0x4DB5, 3), (0x4E00, 0x6FFF, 5), (0x7000, 0x9FA5, 4), (0x9FA6, 0x9FBB, 3), (0xAC00, 0xD7AF, 3), (0xF900, 0xFA2D, 4), (0xFA30, 0xFA6A, 4), (0xFA70, 0xFAD9, 2), (0xFF00, 0xFFEF, 3), (0x20000, 0x2A6D6, 1), (0x2F800, 0x2FA1D, 1)],
 "LATIN1": [(0x0, 0x80, 2), (0x82, 0x8C, 2), (0x8E, 0x8E, 2), (0x91, 0x9C, 2), (0x9E, 0xFF, 2)],
}
