package protocol

// 0x0001: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0001() { vhRoundTrip(vhMk0001(), new(T808_0x0001)) }

// 0x0100: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0100() { vhRoundTrip(vhMk0100(), new(T808_0x0100)) }

// 0x0102: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0102() { vhRoundTrip(vhMk0102(), new(T808_0x0102)) }

// 0x0104: lists of 0-2 parameters (thorough 0-3) of every kind, values of at most 8 bytes
func vhC07_0104() { vhRoundTrip(vhMk0104(), new(T808_0x0104)) }

// 0x0107: SIM numbers of 1, 2, 11, 19 and 20 digits; strings empty, partly and fully filling their fields
func vhC07_0107() { vhRoundTrip(vhMk0107(), new(T808_0x0107)) }

// 0x0108: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0108() { vhRoundTrip(vhMk0108(), new(T808_0x0108)) }

// 0x0301: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0301() { vhRoundTrip(vhMk0301(), new(T808_0x0301)) }

// 0x0302: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0302() { vhRoundTrip(vhMk0302(), new(T808_0x0302)) }

// 0x0303: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0303() { vhRoundTrip(vhMk0303(), new(T808_0x0303)) }

// 0x0700: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0700() { vhRoundTrip(vhMk0700(), new(T808_0x0700)) }

// 0x0701: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0701() { vhRoundTrip(vhMk0701(), new(T808_0x0701)) }

// 0x0702: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0702() { vhRoundTrip(vhMk0702(), new(T808_0x0702)) }

// 0x0705: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0705() { vhRoundTrip(vhMk0705(), new(T808_0x0705)) }

// 0x0800: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0800() { vhRoundTrip(vhMk0800(), new(T808_0x0800)) }

// 0x0805: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0805() { vhRoundTrip(vhMk0805(), new(T808_0x0805)) }

// 0x0900: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC07_0900() { vhRoundTrip(vhMk0900(), new(T808_0x0900)) }

// 0x8001: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8001() { vhRoundTrip(vhMk8001(), new(T808_0x8001)) }

// 0x8003: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8003() { vhRoundTrip(vhMk8003(), new(T808_0x8003)) }

// 0x8100: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8100() { vhRoundTrip(vhMk8100(), new(T808_0x8100)) }

// 0x8103: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8103() { vhRoundTrip(vhMk8103(), new(T808_0x8103)) }

// 0x8105: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8105() { vhRoundTrip(vhMk8105(), new(T808_0x8105)) }

// 0x8106: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8106() { vhRoundTrip(vhMk8106(), new(T808_0x8106)) }

// 0x8108: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8108() { vhRoundTrip(vhMk8108(), new(T808_0x8108)) }

// 0x8202: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8202() { vhRoundTrip(vhMk8202(), new(T808_0x8202)) }

// 0x8203: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8203() { vhRoundTrip(vhMk8203(), new(T808_0x8203)) }

// 0x8300: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8300() { vhRoundTrip(vhMk8300(), new(T808_0x8300)) }

// 0x8301: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8301() { vhRoundTrip(vhMk8301(), new(T808_0x8301)) }

// 0x8302: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8302() { vhRoundTrip(vhMk8302(), new(T808_0x8302)) }

// 0x8303: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8303() { vhRoundTrip(vhMk8303(), new(T808_0x8303)) }

// 0x8304: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8304() { vhRoundTrip(vhMk8304(), new(T808_0x8304)) }

// 0x8400: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8400() { vhRoundTrip(vhMk8400(), new(T808_0x8400)) }

// 0x8401: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8401() { vhRoundTrip(vhMk8401(), new(T808_0x8401)) }

// 0x8500: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8500() { vhRoundTrip(vhMk8500(), new(T808_0x8500)) }

// 0x8601: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8601() { vhRoundTrip(vhMk8601(), new(T808_0x8601)) }

// 0x8603: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8603() { vhRoundTrip(vhMk8603(), new(T808_0x8603)) }

// 0x8605: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8605() { vhRoundTrip(vhMk8605(), new(T808_0x8605)) }

// 0x8607: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8607() { vhRoundTrip(vhMk8607(), new(T808_0x8607)) }

// 0x8700: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8700() { vhRoundTrip(vhMk8700(), new(T808_0x8700)) }

// 0x8701: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8701() { vhRoundTrip(vhMk8701(), new(T808_0x8701)) }

// 0x8800: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8800() { vhRoundTrip(vhMk8800(), new(T808_0x8800)) }

// 0x8801: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8801() { vhRoundTrip(vhMk8801(), new(T808_0x8801)) }

// 0x8802: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8802() { vhRoundTrip(vhMk8802(), new(T808_0x8802)) }

// 0x8803: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8803() { vhRoundTrip(vhMk8803(), new(T808_0x8803)) }

// 0x8804: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8804() { vhRoundTrip(vhMk8804(), new(T808_0x8804)) }

// 0x8805: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8805() { vhRoundTrip(vhMk8805(), new(T808_0x8805)) }

// 0x8900: every field value; lists, texts and data of at most 2-3 elements (thorough 3-8)
func vhC08_8900() { vhRoundTrip(vhMk8900(), new(T808_0x8900)) }

// 0x0001: the same values as in the round trip
func vhC09_0001() { vhLayout(vhMk0001()) }

// 0x0100: the same values as in the round trip
func vhC09_0100() { vhLayout(vhMk0100()) }

// 0x0102: the same values as in the round trip
func vhC09_0102() { vhLayout(vhMk0102()) }

// 0x0104: the same values as in the round trip
func vhC09_0104() { vhLayout(vhMk0104()) }

// 0x0107: the same values as in the round trip
func vhC09_0107() { vhLayout(vhMk0107()) }

// 0x0108: the same values as in the round trip
func vhC09_0108() { vhLayout(vhMk0108()) }

// 0x0301: the same values as in the round trip
func vhC09_0301() { vhLayout(vhMk0301()) }

// 0x0302: the same values as in the round trip
func vhC09_0302() { vhLayout(vhMk0302()) }

// 0x0303: the same values as in the round trip
func vhC09_0303() { vhLayout(vhMk0303()) }

// 0x0700: the same values as in the round trip
func vhC09_0700() { vhLayout(vhMk0700()) }

// 0x0701: the same values as in the round trip
func vhC09_0701() { vhLayout(vhMk0701()) }

// 0x0702: the same values as in the round trip
func vhC09_0702() { vhLayout(vhMk0702()) }

// 0x0705: the same values as in the round trip
func vhC09_0705() { vhLayout(vhMk0705()) }

// 0x0800: the same values as in the round trip
func vhC09_0800() { vhLayout(vhMk0800()) }

// 0x0805: the same values as in the round trip
func vhC09_0805() { vhLayout(vhMk0805()) }

// 0x0900: the same values as in the round trip
func vhC09_0900() { vhLayout(vhMk0900()) }

// 0x8001: the same values as in the round trip
func vhC09_8001() { vhLayout(vhMk8001()) }

// 0x8003: the same values as in the round trip
func vhC09_8003() { vhLayout(vhMk8003()) }

// 0x8100: the same values as in the round trip
func vhC09_8100() { vhLayout(vhMk8100()) }

// 0x8103: the same values as in the round trip
func vhC09_8103() { vhLayout(vhMk8103()) }

// 0x8105: the same values as in the round trip
func vhC09_8105() { vhLayout(vhMk8105()) }

// 0x8106: the same values as in the round trip
func vhC09_8106() { vhLayout(vhMk8106()) }

// 0x8108: the same values as in the round trip
func vhC09_8108() { vhLayout(vhMk8108()) }

// 0x8202: the same values as in the round trip
func vhC09_8202() { vhLayout(vhMk8202()) }

// 0x8203: the same values as in the round trip
func vhC09_8203() { vhLayout(vhMk8203()) }

// 0x8300: the same values as in the round trip
func vhC09_8300() { vhLayout(vhMk8300()) }

// 0x8301: the same values as in the round trip
func vhC09_8301() { vhLayout(vhMk8301()) }

// 0x8302: the same values as in the round trip
func vhC09_8302() { vhLayout(vhMk8302()) }

// 0x8303: the same values as in the round trip
func vhC09_8303() { vhLayout(vhMk8303()) }

// 0x8304: the same values as in the round trip
func vhC09_8304() { vhLayout(vhMk8304()) }

// 0x8400: the same values as in the round trip
func vhC09_8400() { vhLayout(vhMk8400()) }

// 0x8401: the same values as in the round trip
func vhC09_8401() { vhLayout(vhMk8401()) }

// 0x8500: the same values as in the round trip
func vhC09_8500() { vhLayout(vhMk8500()) }

// 0x8601: the same values as in the round trip
func vhC09_8601() { vhLayout(vhMk8601()) }

// 0x8603: the same values as in the round trip
func vhC09_8603() { vhLayout(vhMk8603()) }

// 0x8605: the same values as in the round trip
func vhC09_8605() { vhLayout(vhMk8605()) }

// 0x8607: the same values as in the round trip
func vhC09_8607() { vhLayout(vhMk8607()) }

// 0x8700: the same values as in the round trip
func vhC09_8700() { vhLayout(vhMk8700()) }

// 0x8701: the same values as in the round trip
func vhC09_8701() { vhLayout(vhMk8701()) }

// 0x8800: the same values as in the round trip
func vhC09_8800() { vhLayout(vhMk8800()) }

// 0x8801: the same values as in the round trip
func vhC09_8801() { vhLayout(vhMk8801()) }

// 0x8802: the same values as in the round trip
func vhC09_8802() { vhLayout(vhMk8802()) }

// 0x8803: the same values as in the round trip
func vhC09_8803() { vhLayout(vhMk8803()) }

// 0x8804: the same values as in the round trip
func vhC09_8804() { vhLayout(vhMk8804()) }

// 0x8805: the same values as in the round trip
func vhC09_8805() { vhLayout(vhMk8805()) }

// 0x8900: the same values as in the round trip
func vhC09_8900() { vhLayout(vhMk8900()) }

// 0x0200: the same values as in the round trip
func vhC09_0200() { vhLayout(vhMk0200()) }

// 0x0201: the same values as in the round trip
func vhC09_0201() { vhLayout(vhMk0201()) }

// 0x0500: the same values as in the round trip
func vhC09_0500() { vhLayout(vhMk0500()) }

// 0x0704: the same values as in the round trip
func vhC09_0704() { vhLayout(vhMk0704()) }

// 0x0802: the same values as in the round trip
func vhC09_0802() { vhLayout(vhMk0802()) }

// 0x8600: the same values as in the round trip
func vhC09_8600() { vhLayout(vhMk8600()) }

// 0x8602: the same values as in the round trip
func vhC09_8602() { vhLayout(vhMk8602()) }

// 0x8604: the same values as in the round trip
func vhC09_8604() { vhLayout(vhMk8604()) }

// 0x8606: the same values as in the round trip
func vhC09_8606() { vhLayout(vhMk8606()) }

type vhMaker struct {
	mk  func() vhCase
	dst func() Entity
}

func vhMakers() []vhMaker {
	return []vhMaker{
		{vhMk0001, func() Entity { return new(T808_0x0001) }},
		{vhMk0100, func() Entity { return new(T808_0x0100) }},
		{vhMk0102, func() Entity { return new(T808_0x0102) }},
		{vhMk0104, func() Entity { return new(T808_0x0104) }},
		{vhMk0107, func() Entity { return new(T808_0x0107) }},
		{vhMk0108, func() Entity { return new(T808_0x0108) }},
		{vhMk0301, func() Entity { return new(T808_0x0301) }},
		{vhMk0302, func() Entity { return new(T808_0x0302) }},
		{vhMk0303, func() Entity { return new(T808_0x0303) }},
		{vhMk0700, func() Entity { return new(T808_0x0700) }},
		{vhMk0701, func() Entity { return new(T808_0x0701) }},
		{vhMk0702, func() Entity { return new(T808_0x0702) }},
		{vhMk0705, func() Entity { return new(T808_0x0705) }},
		{vhMk0800, func() Entity { return new(T808_0x0800) }},
		{vhMk0805, func() Entity { return new(T808_0x0805) }},
		{vhMk0900, func() Entity { return new(T808_0x0900) }},
		{vhMk8001, func() Entity { return new(T808_0x8001) }},
		{vhMk8003, func() Entity { return new(T808_0x8003) }},
		{vhMk8100, func() Entity { return new(T808_0x8100) }},
		{vhMk8103, func() Entity { return new(T808_0x8103) }},
		{vhMk8105, func() Entity { return new(T808_0x8105) }},
		{vhMk8106, func() Entity { return new(T808_0x8106) }},
		{vhMk8108, func() Entity { return new(T808_0x8108) }},
		{vhMk8202, func() Entity { return new(T808_0x8202) }},
		{vhMk8203, func() Entity { return new(T808_0x8203) }},
		{vhMk8300, func() Entity { return new(T808_0x8300) }},
		{vhMk8301, func() Entity { return new(T808_0x8301) }},
		{vhMk8302, func() Entity { return new(T808_0x8302) }},
		{vhMk8303, func() Entity { return new(T808_0x8303) }},
		{vhMk8304, func() Entity { return new(T808_0x8304) }},
		{vhMk8400, func() Entity { return new(T808_0x8400) }},
		{vhMk8401, func() Entity { return new(T808_0x8401) }},
		{vhMk8500, func() Entity { return new(T808_0x8500) }},
		{vhMk8601, func() Entity { return new(T808_0x8601) }},
		{vhMk8603, func() Entity { return new(T808_0x8603) }},
		{vhMk8605, func() Entity { return new(T808_0x8605) }},
		{vhMk8607, func() Entity { return new(T808_0x8607) }},
		{vhMk8700, func() Entity { return new(T808_0x8700) }},
		{vhMk8701, func() Entity { return new(T808_0x8701) }},
		{vhMk8800, func() Entity { return new(T808_0x8800) }},
		{vhMk8801, func() Entity { return new(T808_0x8801) }},
		{vhMk8802, func() Entity { return new(T808_0x8802) }},
		{vhMk8803, func() Entity { return new(T808_0x8803) }},
		{vhMk8804, func() Entity { return new(T808_0x8804) }},
		{vhMk8805, func() Entity { return new(T808_0x8805) }},
		{vhMk8900, func() Entity { return new(T808_0x8900) }},
		{vhMk0200, func() Entity { return new(T808_0x0200) }},
		{vhMk0201, func() Entity { return new(T808_0x0201) }},
		{vhMk0500, func() Entity { return new(T808_0x0500) }},
		{vhMk0704, func() Entity { return new(T808_0x0704) }},
		{vhMk0802, func() Entity { return new(T808_0x0802) }},
		{vhMk8600, func() Entity { return new(T808_0x8600) }},
		{vhMk8602, func() Entity { return new(T808_0x8602) }},
		{vhMk8604, func() Entity { return new(T808_0x8604) }},
		{vhMk8606, func() Entity { return new(T808_0x8606) }},
	}
}
