id="c09-required-off"; prop="C09"; pkg="dsp/internal/cpu"
edits=[("dsp/internal/cpu/cpu.go", '''				options[i].Specified = true
				options[i].Enable = enable
				continue field
''', '''				options[i].Specified = true
				options[i].Enable = enable || options[i].Required
				continue field
'''), ("dsp/internal/cpu/cpu.go", '''		if !o.Enable && o.Required {
			print("GODEBUG: can not disable \\"", o.Name, "\\", required CPU feature\\n")
			continue
		}

''', ''), ("dsp/internal/cpu/cpu.go", '''				options[i].Specified = true
				options[i].Enable = enable || options[i].Required
			}
''', '''				options[i].Specified = true
				options[i].Enable = enable
			}
''')]
needs="the option string cpu.all=off, on a build where sse2 is required"
breaks="the check for required features moved from the place where the options are applied to the single-feature branch, so cpu.all=off switches the required SSE2 off"
demo='''
package cpu

import "testing"

func TestVerifDemo(t *testing.T) {
	for _, env := range []string{"cpu.all=off", "cpu.sse2=off", "cpu.sse2=off,cpu.all=off"} {
		Initialize(env)
		if !X86.HasSSE2 {
			t.Errorf("%s disabled the required SSE2", env)
		}
	}
}
'''
