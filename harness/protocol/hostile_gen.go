package protocol

// 0x0001: every body of 0-2 and 5-1 to 5+4 (thorough 5+8) bytes
func vhC04_0001() { vhHostile(5, new(T808_0x0001)) }

// 0x0002: every body of 0-2 and 0-1 to 0+4 (thorough 0+8) bytes
func vhC04_0002() { vhHostile(0, new(T808_0x0002)) }

// 0x0003: every body of 0-2 and 0-1 to 0+4 (thorough 0+8) bytes
func vhC04_0003() { vhHostile(0, new(T808_0x0003)) }

// 0x0100: every body of 0-2 and 37-1 to 37+4 (thorough 37+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff, those below 0x80 not 0
func vhC04_0100() { vhHostileFixed(37, new(T808_0x0100)) }

// 0x0102: every body of 0-2 and 0-1 to 0+4 (thorough 0+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_0102() { vhHostileText(0, new(T808_0x0102)) }

// 0x0104: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes
func vhC04_0104() { vhHostile(3, new(T808_0x0104)) }

// 0x0107: every body of 0-2 and 48-1 to 48+4 (thorough 48+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff, those below 0x80 not 0
func vhC04_0107() { vhHostileFixed(48, new(T808_0x0107)) }

// 0x0108: every body of 0-2 and 2-1 to 2+4 (thorough 2+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_0108() { vhHostileText(2, new(T808_0x0108)) }

// 0x0200: every body of 0-2 and 28-1 to 28+4 (thorough 28+8) bytes
func vhC04_0200() { vhHostile(28, new(T808_0x0200)) }

// 0x0201: every body of 0-2 and 30-1 to 30+4 (thorough 30+8) bytes
func vhC04_0201() { vhHostile(30, new(T808_0x0201)) }

// 0x0301: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_0301() { vhHostileText(1, new(T808_0x0301)) }

// 0x0302: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes
func vhC04_0302() { vhHostile(3, new(T808_0x0302)) }

// 0x0303: every body of 0-2 and 2-1 to 2+4 (thorough 2+8) bytes
func vhC04_0303() { vhHostile(2, new(T808_0x0303)) }

// 0x0500: every body of 0-2 and 30-1 to 30+4 (thorough 30+8) bytes
func vhC04_0500() { vhHostile(30, new(T808_0x0500)) }

// 0x0700: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_0700() { vhHostileText(3, new(T808_0x0700)) }

// 0x0701: every body of 0-2 and 4-1 to 4+4 (thorough 4+8) bytes
func vhC04_0701() { vhHostile(4, new(T808_0x0701)) }

// 0x0702: every body of 0-2 and 34-1 to 34+1 (thorough 34+5) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff, those below 0x80 not 0
func vhC04_0702() { vhMore = 3; vhHostileFixed(34, new(T808_0x0702)) }

// 0x0704: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes
func vhC04_0704() { vhHostile(3, new(T808_0x0704)) }

// 0x0705: every body of 0-2 and 7-1 to 7+4 (thorough 7+8) bytes
func vhC04_0705() { vhHostile(7, new(T808_0x0705)) }

// 0x0800: every body of 0-2 and 8-1 to 8+4 (thorough 8+8) bytes
func vhC04_0800() { vhHostile(8, new(T808_0x0800)) }

// 0x0801: every body of 0-2 and 36-1 to 36+4 (thorough 36+8) bytes
func vhC04_0801() { vhHostile(36, new(T808_0x0801)) }

// 0x0802: every body of 0-2 and 4-1 to 4+4 (thorough 4+8) bytes
func vhC04_0802() { vhHostile(4, new(T808_0x0802)) }

// 0x0805: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes
func vhC04_0805() { vhHostile(3, new(T808_0x0805)) }

// 0x0900: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_0900() { vhHostile(1, new(T808_0x0900)) }

// 0x0901: every body of 0-2 and 4-1 to 4+4 (thorough 4+8) bytes
func vhC04_0901() { vhHostile(4, new(T808_0x0901)) }

// 0x0a00: every body of 0-2 and 132-1 to 132+4 (thorough 132+8) bytes
func vhC04_0a00() { vhHostile(132, new(T808_0x0A00)) }

// 0x8001: every body of 0-2 and 5-1 to 5+4 (thorough 5+8) bytes
func vhC04_8001() { vhHostile(5, new(T808_0x8001)) }

// 0x8003: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes
func vhC04_8003() { vhHostile(3, new(T808_0x8003)) }

// 0x8100: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8100() { vhHostileText(3, new(T808_0x8100)) }

// 0x8103: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8103() { vhHostile(1, new(T808_0x8103)) }

// 0x8104: every body of 0-2 and 0-1 to 0+4 (thorough 0+8) bytes
func vhC04_8104() { vhHostile(0, new(T808_0x8104)) }

// 0x8105: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8105() { vhHostileText(1, new(T808_0x8105)) }

// 0x8106: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8106() { vhHostile(1, new(T808_0x8106)) }

// 0x8107: every body of 0-2 and 0-1 to 0+4 (thorough 0+8) bytes
func vhC04_8107() { vhHostile(0, new(T808_0x8107)) }

// 0x8108: every body of 0-2 and 11-1 to 11+4 (thorough 11+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff, those below 0x80 not 0
func vhC04_8108() { vhHostileFixed(11, new(T808_0x8108)) }

// 0x8201: every body of 0-2 and 0-1 to 0+4 (thorough 0+8) bytes
func vhC04_8201() { vhHostile(0, new(T808_0x8201)) }

// 0x8202: every body of 0-2 and 4-1 to 4+4 (thorough 4+8) bytes
func vhC04_8202() { vhHostile(4, new(T808_0x8202)) }

// 0x8203: every body of 0-2 and 4-1 to 4+4 (thorough 4+8) bytes
func vhC04_8203() { vhHostile(4, new(T808_0x8203)) }

// 0x8300: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8300() { vhHostileText(1, new(T808_0x8300)) }

// 0x8301: every body of 0-2 and 2-1 to 2+4 (thorough 2+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8301() { vhHostileText(2, new(T808_0x8301)) }

// 0x8302: every body of 0-2 and 2-1 to 2+4 (thorough 2+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8302() { vhHostileText(2, new(T808_0x8302)) }

// 0x8303: every body of 0-2 and 2-1 to 2+4 (thorough 2+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8303() { vhHostileText(2, new(T808_0x8303)) }

// 0x8304: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8304() { vhHostileText(3, new(T808_0x8304)) }

// 0x8400: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8400() { vhHostileText(1, new(T808_0x8400)) }

// 0x8401: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8401() { vhHostileText(1, new(T808_0x8401)) }

// 0x8500: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8500() { vhHostile(1, new(T808_0x8500)) }

// 0x8600: every body of 0-2 and 20-1 to 20+4 (thorough 20+8) bytes
func vhC04_8600() { vhHostile(20, new(T808_0x8600)) }

// 0x8601: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8601() { vhHostile(1, new(T808_0x8601)) }

// 0x8602: every body of 0-2 and 24-1 to 24+4 (thorough 24+8) bytes
func vhC04_8602() { vhHostile(24, new(T808_0x8602)) }

// 0x8603: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8603() { vhHostile(1, new(T808_0x8603)) }

// 0x8604: every body of 0-2 and 16-1 to 16+4 (thorough 16+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8604() { vhHostileText(16, new(T808_0x8604)) }

// 0x8605: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8605() { vhHostile(1, new(T808_0x8605)) }

// 0x8606: every body of 0-2 and 20-1 to 20+4 (thorough 20+8) bytes, all but one (thorough two) of them below 0x80, the others below 0x81 or 0xff
func vhC04_8606() { vhHostileText(20, new(T808_0x8606)) }

// 0x8607: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8607() { vhHostile(1, new(T808_0x8607)) }

// 0x8700: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8700() { vhHostile(1, new(T808_0x8700)) }

// 0x8701: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8701() { vhHostile(1, new(T808_0x8701)) }

// 0x8702: every body of 0-2 and 0-1 to 0+4 (thorough 0+8) bytes
func vhC04_8702() { vhHostile(0, new(T808_0x8702)) }

// 0x8800: every body of 0-2 and 4-1 to 4+4 (thorough 4+8) bytes
func vhC04_8800() { vhHostile(4, new(T808_0x8800)) }

// 0x8801: every body of 0-2 and 12-1 to 12+4 (thorough 12+8) bytes
func vhC04_8801() { vhHostile(12, new(T808_0x8801)) }

// 0x8802: every body of 0-2 and 15-1 to 15+4 (thorough 15+8) bytes
func vhC04_8802() { vhHostile(15, new(T808_0x8802)) }

// 0x8803: every body of 0-2 and 16-1 to 16+4 (thorough 16+8) bytes
func vhC04_8803() { vhHostile(16, new(T808_0x8803)) }

// 0x8804: every body of 0-2 and 5-1 to 5+4 (thorough 5+8) bytes
func vhC04_8804() { vhHostile(5, new(T808_0x8804)) }

// 0x8805: every body of 0-2 and 3-1 to 3+4 (thorough 3+8) bytes
func vhC04_8805() { vhHostile(3, new(T808_0x8805)) }

// 0x8900: every body of 0-2 and 1-1 to 1+4 (thorough 1+8) bytes
func vhC04_8900() { vhHostile(1, new(T808_0x8900)) }

// 0x8a00: every body of 0-2 and 132-1 to 132+4 (thorough 132+8) bytes
func vhC04_8a00() { vhHostile(132, new(T808_0x8A00)) }
