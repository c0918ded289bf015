// Package mpv writes MPEG-2 video elementary streams from explicit syntax
// elements and reconstructs the pictures they define. It is written from
// ISO/IEC 13818-2, independently of the code under test.
package mpv

// vlc is a code of n bits.
type vlc struct {
	code uint16
	n    uint8
}

// Table B-1, increments 1..33.
var addrInc = [34]vlc{
	{}, {0x01, 1}, {0x03, 3}, {0x02, 3}, {0x03, 4}, {0x02, 4}, {0x03, 5}, {0x02, 5},
	{0x07, 7}, {0x06, 7}, {0x0b, 8}, {0x0a, 8}, {0x09, 8}, {0x08, 8}, {0x07, 8}, {0x06, 8},
	{0x17, 10}, {0x16, 10}, {0x15, 10}, {0x14, 10}, {0x13, 10}, {0x12, 10},
	{0x23, 11}, {0x22, 11}, {0x21, 11}, {0x20, 11}, {0x1f, 11}, {0x1e, 11}, {0x1d, 11}, {0x1c, 11},
	{0x1b, 11}, {0x1a, 11}, {0x19, 11}, {0x18, 11},
}

var addrEscape = vlc{0x08, 11}

// mbKind says which elements a macroblock has.
type mbKind struct{ quant, fwd, bwd, pattern, intra bool }

// Tables B-2, B-3, B-4.
var mbTypes = map[byte]map[mbKind]vlc{
	'I': {
		{intra: true}:              {1, 1},
		{quant: true, intra: true}: {1, 2},
	},
	'P': {
		{fwd: true, pattern: true}:              {1, 1},
		{pattern: true}:                         {1, 2},
		{fwd: true}:                             {1, 3},
		{intra: true}:                           {3, 5},
		{quant: true, fwd: true, pattern: true}: {2, 5},
		{quant: true, pattern: true}:            {1, 5},
		{quant: true, intra: true}:              {1, 6},
	},
	'B': {
		{fwd: true, bwd: true}:                {2, 2},
		{fwd: true, bwd: true, pattern: true}: {3, 2},
		{bwd: true}:                           {2, 3},
		{bwd: true, pattern: true}:            {3, 3},
		{fwd: true}:                           {2, 4},
		{fwd: true, pattern: true}:            {3, 4},
		{intra: true}:                         {3, 5},
		{quant: true, fwd: true, bwd: true, pattern: true}: {2, 5},
		{quant: true, fwd: true, pattern: true}:            {3, 6},
		{quant: true, bwd: true, pattern: true}:            {2, 6},
		{quant: true, intra: true}:                         {1, 6},
	},
}

// Table B-9, indexed by the pattern.
var cbpCodes = [64]vlc{
	{0x01, 9}, {0x0b, 5}, {0x09, 5}, {0x0d, 6}, {0x0d, 4}, {0x17, 7}, {0x13, 7}, {0x1f, 8},
	{0x0c, 4}, {0x16, 7}, {0x12, 7}, {0x1e, 8}, {0x13, 5}, {0x1b, 8}, {0x17, 8}, {0x13, 8},
	{0x0b, 4}, {0x15, 7}, {0x11, 7}, {0x1d, 8}, {0x11, 5}, {0x19, 8}, {0x15, 8}, {0x11, 8},
	{0x0f, 6}, {0x0f, 8}, {0x0d, 8}, {0x03, 9}, {0x0f, 5}, {0x0b, 8}, {0x07, 8}, {0x07, 9},
	{0x0a, 4}, {0x14, 7}, {0x10, 7}, {0x1c, 8}, {0x0e, 6}, {0x0e, 8}, {0x0c, 8}, {0x02, 9},
	{0x10, 5}, {0x18, 8}, {0x14, 8}, {0x10, 8}, {0x0e, 5}, {0x0a, 8}, {0x06, 8}, {0x06, 9},
	{0x12, 5}, {0x1a, 8}, {0x16, 8}, {0x12, 8}, {0x0d, 5}, {0x09, 8}, {0x05, 8}, {0x05, 9},
	{0x0c, 5}, {0x08, 8}, {0x04, 8}, {0x04, 9}, {0x07, 3}, {0x0a, 5}, {0x08, 5}, {0x0c, 6},
}

// Table B-10, magnitudes 0..16; a sign bit follows all but 0.
var motionCodes = [17]vlc{
	{0x01, 1}, {0x01, 2}, {0x01, 3}, {0x01, 4}, {0x03, 6}, {0x05, 7}, {0x04, 7}, {0x03, 7},
	{0x0b, 9}, {0x0a, 9}, {0x09, 9}, {0x11, 10}, {0x10, 10}, {0x0f, 10}, {0x0e, 10}, {0x0d, 10}, {0x0c, 10},
}

// Tables B-12, B-13.
var dcLuma = [12]vlc{
	{0x04, 3}, {0x00, 2}, {0x01, 2}, {0x05, 3}, {0x06, 3}, {0x0e, 4}, {0x1e, 5}, {0x3e, 6},
	{0x7e, 7}, {0xfe, 8}, {0x1fe, 9}, {0x1ff, 9},
}
var dcChroma = [12]vlc{
	{0x00, 2}, {0x01, 2}, {0x02, 2}, {0x06, 3}, {0x0e, 4}, {0x1e, 5}, {0x3e, 6}, {0x7e, 7},
	{0xfe, 8}, {0x1fe, 9}, {0x3fe, 10}, {0x3ff, 10},
}

// Table B-14, by run and level (from 1); a sign bit follows.
var acZero = [32][]vlc{
	{{0x03, 2}, {0x04, 4}, {0x05, 5}, {0x06, 7}, {0x26, 8}, {0x21, 8}, {0x0a, 10}, {0x1d, 12},
		{0x18, 12}, {0x13, 12}, {0x10, 12}, {0x1a, 13}, {0x19, 13}, {0x18, 13}, {0x17, 13}, {0x1f, 14},
		{0x1e, 14}, {0x1d, 14}, {0x1c, 14}, {0x1b, 14}, {0x1a, 14}, {0x19, 14}, {0x18, 14}, {0x17, 14},
		{0x16, 14}, {0x15, 14}, {0x14, 14}, {0x13, 14}, {0x12, 14}, {0x11, 14}, {0x10, 14}, {0x18, 15},
		{0x17, 15}, {0x16, 15}, {0x15, 15}, {0x14, 15}, {0x13, 15}, {0x12, 15}, {0x11, 15}, {0x10, 15}},
	{{0x03, 3}, {0x06, 6}, {0x25, 8}, {0x0c, 10}, {0x1b, 12}, {0x16, 13}, {0x15, 13}, {0x1f, 15},
		{0x1e, 15}, {0x1d, 15}, {0x1c, 15}, {0x1b, 15}, {0x1a, 15}, {0x19, 15}, {0x13, 16}, {0x12, 16},
		{0x11, 16}, {0x10, 16}},
	{{0x05, 4}, {0x04, 7}, {0x0b, 10}, {0x14, 12}, {0x14, 13}},
	{{0x07, 5}, {0x24, 8}, {0x1c, 12}, {0x13, 13}},
	{{0x06, 5}, {0x0f, 10}, {0x12, 12}},
	{{0x07, 6}, {0x09, 10}, {0x12, 13}},
	{{0x05, 6}, {0x1e, 12}, {0x14, 16}},
	{{0x04, 6}, {0x15, 12}},
	{{0x07, 7}, {0x11, 12}},
	{{0x05, 7}, {0x11, 13}},
	{{0x27, 8}, {0x10, 13}},
	{{0x23, 8}, {0x1a, 16}},
	{{0x22, 8}, {0x19, 16}},
	{{0x20, 8}, {0x18, 16}},
	{{0x0e, 10}, {0x17, 16}},
	{{0x0d, 10}, {0x16, 16}},
	{{0x08, 10}, {0x15, 16}},
	{{0x1f, 12}}, {{0x1a, 12}}, {{0x19, 12}}, {{0x17, 12}}, {{0x16, 12}},
	{{0x1f, 13}}, {{0x1e, 13}}, {{0x1d, 13}}, {{0x1c, 13}}, {{0x1b, 13}},
	{{0x1f, 16}}, {{0x1e, 16}}, {{0x1d, 16}}, {{0x1c, 16}}, {{0x1b, 16}},
}

// Table B-15.
var acOne = [32][]vlc{
	{{0x02, 2}, {0x06, 3}, {0x07, 4}, {0x1c, 5}, {0x1d, 5}, {0x05, 6}, {0x04, 6}, {0x7b, 7},
		{0x7c, 7}, {0x23, 8}, {0x22, 8}, {0xfa, 8}, {0xfb, 8}, {0xfe, 8}, {0xff, 8}, {0x1f, 14},
		{0x1e, 14}, {0x1d, 14}, {0x1c, 14}, {0x1b, 14}, {0x1a, 14}, {0x19, 14}, {0x18, 14}, {0x17, 14},
		{0x16, 14}, {0x15, 14}, {0x14, 14}, {0x13, 14}, {0x12, 14}, {0x11, 14}, {0x10, 14}, {0x18, 15},
		{0x17, 15}, {0x16, 15}, {0x15, 15}, {0x14, 15}, {0x13, 15}, {0x12, 15}, {0x11, 15}, {0x10, 15}},
	{{0x02, 3}, {0x06, 5}, {0x79, 7}, {0x27, 8}, {0x20, 8}, {0x16, 13}, {0x15, 13}, {0x1f, 15},
		{0x1e, 15}, {0x1d, 15}, {0x1c, 15}, {0x1b, 15}, {0x1a, 15}, {0x19, 15}, {0x13, 16}, {0x12, 16},
		{0x11, 16}, {0x10, 16}},
	{{0x05, 5}, {0x07, 7}, {0xfc, 8}, {0x0c, 10}, {0x14, 13}},
	{{0x07, 5}, {0x26, 8}, {0x1c, 12}, {0x13, 13}},
	{{0x06, 6}, {0xfd, 8}, {0x12, 12}},
	{{0x07, 6}, {0x04, 9}, {0x12, 13}},
	{{0x06, 7}, {0x1e, 12}, {0x14, 16}},
	{{0x04, 7}, {0x15, 12}},
	{{0x05, 7}, {0x11, 12}},
	{{0x78, 7}, {0x11, 13}},
	{{0x7a, 7}, {0x10, 13}},
	{{0x21, 8}, {0x1a, 16}},
	{{0x25, 8}, {0x19, 16}},
	{{0x24, 8}, {0x18, 16}},
	{{0x05, 9}, {0x17, 16}},
	{{0x07, 9}, {0x16, 16}},
	{{0x0d, 10}, {0x15, 16}},
	{{0x1f, 12}}, {{0x1a, 12}}, {{0x19, 12}}, {{0x17, 12}}, {{0x16, 12}},
	{{0x1f, 13}}, {{0x1e, 13}}, {{0x1d, 13}}, {{0x1c, 13}}, {{0x1b, 13}},
	{{0x1f, 16}}, {{0x1e, 16}}, {{0x1d, 16}}, {{0x1c, 16}}, {{0x1b, 16}},
}

// zigzag and alternate give the raster position of the n-th coefficient
// (figures 7-2 and 7-3, inverted by init).
var zigzag, alternate [64]int

func init() {
	// figure 7-2 follows the anti-diagonals, turning at the edges
	x, y, up := 0, 0, true
	for n := 0; n < 64; n++ {
		zigzag[n] = y*8 + x
		switch {
		case up && x == 7:
			y, up = y+1, false
		case up && y == 0:
			x, up = x+1, false
		case up:
			x, y = x+1, y-1
		case y == 7:
			x, up = x+1, true
		case x == 0:
			y, up = y+1, true
		default:
			x, y = x-1, y+1
		}
	}
	// figure 7-3: scan position by row v and column u
	alt := [8][8]int{
		{0, 4, 6, 20, 22, 36, 38, 52},
		{1, 5, 7, 21, 23, 37, 39, 53},
		{2, 8, 19, 24, 34, 40, 50, 54},
		{3, 9, 18, 25, 35, 41, 51, 55},
		{10, 17, 26, 30, 42, 46, 56, 60},
		{11, 16, 27, 31, 43, 47, 57, 61},
		{12, 15, 28, 32, 44, 48, 58, 62},
		{13, 14, 29, 33, 45, 49, 59, 63},
	}
	for v := range alt {
		for u, n := range alt[v] {
			alternate[n] = v*8 + u
		}
	}
}

// Table 7-6.
func quantiserScale(typ, code int) int {
	if typ == 0 {
		return 2 * code
	}
	switch {
	case code <= 8:
		return code
	case code <= 16:
		return 8 + 2*(code-8)
	case code <= 24:
		return 24 + 4*(code-16)
	}
	return 56 + 8*(code-24)
}

// 6.3.11, raster order.
var defaultIntra = [64]uint8{
	8, 16, 19, 22, 26, 27, 29, 34,
	16, 16, 22, 24, 27, 29, 34, 37,
	19, 22, 26, 27, 29, 34, 34, 38,
	22, 22, 26, 27, 29, 34, 37, 40,
	22, 26, 27, 29, 32, 35, 40, 48,
	26, 27, 29, 32, 35, 40, 48, 58,
	26, 27, 29, 34, 38, 46, 56, 69,
	27, 29, 35, 38, 46, 56, 69, 83,
}
