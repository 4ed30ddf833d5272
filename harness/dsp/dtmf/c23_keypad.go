package dtmf

import nd "github.com/samuel/go-dsp/verifnd"

func init() {
	nd.Reg("C23", "keypad", H_C23_keypad, func(t int) [][]int { return [][]int{{}} })
}

// H_C23_keypad: the key of each pair of standard frequencies.
func H_C23_keypad() {
	low, high := []uint64{697, 770, 852, 941}, []uint64{1209, 1336, 1477, 1633}
	nd.EqI(int64(len(StdLowFreq)), 4, "low frequencies", 0)
	nd.EqI(int64(len(StdHighFreq)), 4, "high frequencies", 0)
	nd.EqI(int64(len(Keypad)), 16, "keys", 0)
	row, col := nd.I64("row"), nd.I64("col")
	nd.Assume(row >= 0 && row < 4 && col >= 0 && col < 4)
	nd.EqI(int64(StdLowFreq[row]), int64(low[row]), "low frequency of a row", 0)
	nd.EqI(int64(StdHighFreq[col]), int64(high[col]), "high frequency of a column", 0)
	keys := [4][4]rune{{'1', '2', '3', 'A'}, {'4', '5', '6', 'B'}, {'7', '8', '9', 'C'}, {'*', '0', '#', 'D'}}
	nd.EqI(int64(Keypad[row*4+col]), int64(keys[row][col]), "key", 0)
}
