id="c32-short-code"; prop="C32"; pkg="dsp/ax25"
edits=[("dsp/ax25/constants.go", '''	if s := pidToString[pid]; s != "" {
		return s
	}
	return fmt.Sprintf("%02x", int(pid))
''', '''	if s := pidToString[pid]; s != "" {
		return s
	}
	return fmt.Sprintf("%x", int(pid))
''')]
needs="an unknown protocol identifier below 0x10"
breaks="it prints as one digit"
demo='''
package ax25

import "testing"

func TestVerifDemo(t *testing.T) {
	if s := PID(5).String(); s != "05" {
		t.Fatal(s)
	}
}
'''
