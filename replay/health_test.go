// Package health replays C27 against the real code.
package health

import (
	"fmt"
	"math/rand"
	"testing"
	"time"
)

func TestHealth(t *testing.T) {
	saved := checks
	defer func() { checks = saved }()
	r := rand.New(rand.NewSource(3))
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); {
		checks = map[string]SubsystemCheck{}
		want := map[SubsystemStatus]bool{}
		ok := true
		n := r.Intn(6)
		for i := 0; i < n; i++ {
			s := SubsystemStatus{OK: r.Intn(3) != 0, Name: fmt.Sprint("c", r.Intn(4)), Status: []string{"", "fine", "broken", fmt.Sprint("s", i)}[r.Intn(4)]}
			if r.Intn(8) == 0 {
				s.Name, s.Status = "", ""
			}
			reg := fmt.Sprint("r", i)
			RegisterCheck(reg, func() SubsystemStatus { return s })
			want[s] = true
			ok = ok && s.OK
			if r.Intn(3) == 0 { // a name taken keeps its check
				RegisterCheck(reg, func() SubsystemStatus { return SubsystemStatus{OK: !s.OK, Name: "usurper"} })
			}
		}
		bad := func(f string, a ...interface{}) {
			t.Helper()
			t.Fatalf("COUNTEREXAMPLE property=C27: the checks report %v: %s", keys(want), fmt.Sprintf(f, a...))
		}
		st := Check()
		if st.OK != ok {
			bad("Check().OK is %v", st.OK)
		}
		if len(st.Subsystems) != n {
			bad("Check() reports %v", st.Subsystems)
		}
		got := map[SubsystemStatus]bool{}
		for _, s := range st.Subsystems {
			got[s] = true
		}
		for s := range want {
			if !got[s] {
				bad("Check() does not report %v", s)
			}
		}
		if f := st.FirstFailure; !ok && (f.OK || !want[f]) {
			bad("the first failure is %v", f)
		}
		p := st.Proto()
		if p.GetSystemOK() != ok {
			bad("the status sent says SystemOK=%v", p.GetSystemOK())
		}
		if len(p.GetSubSystems()) != n {
			bad("the status sent has %v", p.GetSubSystems())
		}
		for i, s := range st.Subsystems {
			if q := p.GetSubSystems()[i]; q.GetName() != s.Name || q.GetOK() != s.OK || q.GetFaultMessage() != s.Status {
				bad("the status sent has %v instead of %v", q, s)
			}
		}
		if f := p.GetFirstFailure(); !ok && (f == nil || f.GetOK() || !want[SubsystemStatus{f.GetOK(), f.GetName(), f.GetFaultMessage()}]) {
			bad("the first failure sent is %v", f)
		}
	}
}

func keys(m map[SubsystemStatus]bool) []SubsystemStatus {
	var r []SubsystemStatus
	for k := range m {
		r = append(r, k)
	}
	return r
}
