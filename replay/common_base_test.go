//go:build go1.18

// Package all_test replays properties of NetAuth against the real code
// with enumerated and random inputs, and prints COUNTEREXAMPLE lines.  It is
// overlaid into the module when a proof obligation fails; it decides nothing
// on its own.
package all_test

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/golang/protobuf/proto"
	"github.com/hashicorp/go-hclog"

	"github.com/netauth/netauth/internal/db"
	"github.com/netauth/netauth/internal/startup"
	"github.com/netauth/netauth/internal/tree"
	_ "github.com/netauth/netauth/internal/tree/hooks"

	types "github.com/netauth/protocol"
)

var prop = os.Getenv("VERIF_PROP")

// limit bounds the time of one replay.
var start = time.Now()

func timeUp() bool { return time.Since(start) > 60*time.Second }

// report prints a counterexample of a property, when that is the one asked
// for, and ends the test.
func report(t *testing.T, props string, format string, a ...interface{}) {
	t.Helper()
	for _, p := range strings.Fields(props) {
		if prop == "" || p == prop {
			t.Fatalf("COUNTEREXAMPLE property=%s: %s", p, fmt.Sprintf(format, a...))
		}
	}
}

var errFault = errors.New("injected fault")

// ---------------------------------------------------------------- store

// store is a tree.DB over two maps that can be told to fail.
type store struct {
	ents   map[string]*types.Entity
	grps   map[string]*types.Group
	cbs    map[string]db.Callback
	faulty bool // fail the call number failAt
	calls  int
	failAt int
	late   bool // a failing write fails after it was done
	werr   error
	writes int
}

func newStore() *store {
	return &store{ents: map[string]*types.Entity{}, grps: map[string]*types.Group{}, cbs: map[string]db.Callback{}}
}

func (s *store) fault() bool {
	s.calls++
	return s.faulty && s.calls == s.failAt
}

func (s *store) fire(t db.EventType, pk string) {
	// no faults while the change is delivered
	f, c := s.faulty, s.calls
	s.faulty = false
	defer func() { s.faulty, s.calls = f, c }()
	for _, n := range keysOf(s.cbs) {
		s.cbs[n](db.Event{Type: t, PK: pk})
	}
}

func keysOf[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (s *store) DiscoverEntityIDs() ([]string, error) {
	if s.fault() {
		return nil, errFault
	}
	return keysOf(s.ents), nil
}
func (s *store) DiscoverGroupNames() ([]string, error) {
	if s.fault() {
		return nil, errFault
	}
	return keysOf(s.grps), nil
}
func (s *store) LoadEntity(id string) (*types.Entity, error) {
	if s.fault() {
		return nil, errFault
	}
	e, ok := s.ents[id]
	if !ok {
		return nil, db.ErrUnknownEntity
	}
	return proto.Clone(e).(*types.Entity), nil
}
func (s *store) LoadGroup(id string) (*types.Group, error) {
	if s.fault() {
		return nil, errFault
	}
	g, ok := s.grps[id]
	if !ok {
		return nil, db.ErrUnknownGroup
	}
	return proto.Clone(g).(*types.Group), nil
}
func (s *store) write(f func()) error {
	s.writes++
	if s.fault() {
		if s.late {
			f()
		}
		s.werr = errFault
		return errFault
	}
	f()
	return nil
}
func (s *store) SaveEntity(e *types.Entity) error {
	return s.write(func() {
		_, had := s.ents[e.GetID()]
		s.ents[e.GetID()] = proto.Clone(e).(*types.Entity)
		if had {
			s.fire(db.EventEntityUpdate, e.GetID())
		} else {
			s.fire(db.EventEntityCreate, e.GetID())
		}
	})
}
func (s *store) DeleteEntity(id string) error {
	if _, ok := s.ents[id]; !ok {
		return db.ErrUnknownEntity
	}
	return s.write(func() { delete(s.ents, id); s.fire(db.EventEntityDestroy, id) })
}
func (s *store) SaveGroup(g *types.Group) error {
	return s.write(func() {
		_, had := s.grps[g.GetName()]
		s.grps[g.GetName()] = proto.Clone(g).(*types.Group)
		if had {
			s.fire(db.EventGroupUpdate, g.GetName())
		} else {
			s.fire(db.EventGroupCreate, g.GetName())
		}
	})
}
func (s *store) DeleteGroup(id string) error {
	if _, ok := s.grps[id]; !ok {
		return db.ErrUnknownGroup
	}
	return s.write(func() { delete(s.grps, id); s.fire(db.EventGroupDestroy, id) })
}
func (s *store) NextEntityNumber() (int32, error) {
	if s.fault() {
		return 0, errFault
	}
	n := int32(0)
	for _, e := range s.ents {
		if e.GetNumber() > n {
			n = e.GetNumber()
		}
	}
	return n + 1, nil
}
func (s *store) NextGroupNumber() (int32, error) {
	if s.fault() {
		return 0, errFault
	}
	n := int32(0)
	for _, g := range s.grps {
		if g.GetNumber() > n {
			n = g.GetNumber()
		}
	}
	return n + 1, nil
}
func (s *store) SearchEntities(r db.SearchRequest) ([]*types.Entity, error) {
	if s.fault() {
		return nil, errFault
	}
	var out []*types.Entity
	for _, k := range keysOf(s.ents) {
		out = append(out, proto.Clone(s.ents[k]).(*types.Entity))
	}
	return out, nil
}
func (s *store) SearchGroups(r db.SearchRequest) ([]*types.Group, error) {
	if s.fault() {
		return nil, errFault
	}
	var out []*types.Group
	for _, k := range keysOf(s.grps) {
		out = append(out, proto.Clone(s.grps[k]).(*types.Group))
	}
	return out, nil
}
func (s *store) RegisterCallback(n string, c db.Callback) { s.cbs[n] = c }

// image is a copy of what is stored.
type image struct {
	ents map[string]*types.Entity
	grps map[string]*types.Group
}

func (s *store) snap() image {
	r := image{map[string]*types.Entity{}, map[string]*types.Group{}}
	for k, e := range s.ents {
		r.ents[k] = proto.Clone(e).(*types.Entity)
	}
	for k, g := range s.grps {
		r.grps[k] = proto.Clone(g).(*types.Group)
	}
	return r
}

func sameImage(a, b image) string {
	for _, k := range union(keysOf(a.ents), keysOf(b.ents)) {
		if !entEq(a.ents[k], b.ents[k]) {
			return fmt.Sprintf("entity %q was {%s}, is {%s}", k, show(a.ents[k]), show(b.ents[k]))
		}
	}
	for _, k := range union(keysOf(a.grps), keysOf(b.grps)) {
		if !grpEq(a.grps[k], b.grps[k]) {
			return fmt.Sprintf("group %q was {%s}, is {%s}", k, show(a.grps[k]), show(b.grps[k]))
		}
	}
	return ""
}

func union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range append(append([]string{}, a...), b...) {
		m[x] = true
	}
	return keysOf(m)
}

func show(m proto.Message) string {
	if m == nil {
		return "nothing"
	}
	switch v := m.(type) {
	case *types.Entity:
		if v == nil {
			return "nothing"
		}
	case *types.Group:
		if v == nil {
			return "nothing"
		}
	}
	return proto.CompactTextString(m)
}

// entEq: equal, with an absent metadata block like an empty one.
func entEq(a, b *types.Entity) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	a, b = proto.Clone(a).(*types.Entity), proto.Clone(b).(*types.Entity)
	if a.Meta == nil {
		a.Meta = &types.EntityMeta{}
	}
	if b.Meta == nil {
		b.Meta = &types.EntityMeta{}
	}
	return proto.Equal(a, b)
}

func grpEq(a, b *types.Group) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return proto.Equal(a, b)
}

// ---------------------------------------------------------------- crypto

// salted is a crypto engine with a different result on every call.
type salted struct{ n int }

func (c *salted) SecureSecret(s string) (string, error) {
	if s == "unhashable" {
		return "", errFault
	}
	c.n++
	return fmt.Sprintf("hash(%s)#%d", s, c.n), nil
}
func (c *salted) VerifySecret(s, h string) error {
	if verifies(s, h) {
		return nil
	}
	return errors.New("no match")
}
func verifies(s, h string) bool { return strings.HasPrefix(h, "hash("+s+")#") }

// ---------------------------------------------------------------- manager

var once sync.Once

func newManager(t *testing.T, s *store) *tree.Manager {
	once.Do(startup.DoCallbacks)
	m, err := tree.New(s, &salted{}, hclog.NewNullLogger())
	if err != nil {
		report(t, "C33 C28 C30", "tree.New: %v", err)
		t.Skip("no manager")
	}
	for _, k := range keysOf(s.ents) {
		s.fire(db.EventEntityUpdate, k)
	}
	for _, k := range keysOf(s.grps) {
		s.fire(db.EventGroupUpdate, k)
	}
	return m
}

// ---------------------------------------------------------------- values

var (
	entIDs  = []string{"e1", "e2", "e3", "E1", "e1 "}
	grpIDs  = []string{"g1", "g2", "g10", "G1", "g1 "}
	secrets = []string{"s1", "s2", "", "unhashable", "s1 ", "S1"}
	umKeys  = []string{"a", "b", "aa", "a{0}", "a{1}", "A", "a.", ""}
	umVals  = []string{"1", "2", "", "x:y"}
	kvKeys  = []string{"a", "aa", "b", "*", ""}
	keyTy   = []string{"ssh", "SSH", "rsa", "ss"}
	keyVal  = []string{"k1", "k2", "k", "", "k1 ", "K1", "k1\n"}
	capNs   = []types.Capability{0, 10, 14, 23}
	numbers = []int32{-1, 0, 1, 7, 2147483000}
	strs    = []string{"", "x", "y"}
)

func pick[T any](r *rand.Rand, l []T) T { return l[r.Intn(len(l))] }

func some[T any](r *rand.Rand, l []T, max int) []T {
	var out []T
	for n := r.Intn(max + 1); n > 0; n-- {
		out = append(out, pick(r, l))
	}
	return out
}

func optStr(r *rand.Rand) *string {
	if r.Intn(2) == 0 {
		return nil
	}
	s := pick(r, strs)
	return &s
}

func kvEntry(r *rand.Rand, key string) *types.KVData {
	d := &types.KVData{Key: &key}
	for i := r.Intn(3); i > 0; i-- {
		v := pick(r, strs)
		n := int32(r.Intn(3))
		kv := &types.KVValue{Value: &v}
		if r.Intn(2) == 0 {
			kv.Index = &n
		}
		d.Values = append(d.Values, kv)
	}
	return d
}

func kvList(r *rand.Rand) []*types.KVData {
	var out []*types.KVData
	for _, k := range kvKeys {
		if k != "*" && r.Intn(3) == 0 {
			out = append(out, kvEntry(r, k))
		}
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func umList(r *rand.Rand) []string {
	var out []string
	for n := r.Intn(5); n > 0; n-- {
		out = append(out, pick(r, umKeys)+":"+pick(r, umVals))
	}
	return out
}

func randMeta(r *rand.Rand) *types.EntityMeta {
	m := &types.EntityMeta{PrimaryGroup: optStr(r), GECOS: optStr(r), LegalName: optStr(r), DisplayName: optStr(r), Home: optStr(r), Shell: optStr(r),
		GraphicalShell: optStr(r), BadgeNumber: optStr(r), Groups: blanks(r, some(r, grpIDs, 3)), Capabilities: some(r, capNs, 4), UntypedMeta: umList(r), KV: kvList(r)}
	if r.Intn(2) == 0 {
		b := r.Intn(2) == 0
		m.Locked = &b
	}
	for n := r.Intn(4); n > 0; n-- {
		m.Keys = append(m.Keys, strings.ToUpper(pick(r, keyTy))+":"+pick(r, keyVal))
	}
	m.Keys = blanks(r, m.Keys)
	return m
}

// blanks puts a blank entry somewhere, at times.
func blanks(r *rand.Rand, l []string) []string {
	if r.Intn(8) > 0 {
		return l
	}
	i := r.Intn(len(l) + 1)
	return append(append(append([]string{}, l[:i]...), ""), l[i:]...)
}

func randEntity(r *rand.Rand, id string, n int32) *types.Entity {
	sec := "hash(" + pick(r, secrets) + ")#0"
	e := &types.Entity{ID: &id, Number: &n, Secret: &sec}
	if r.Intn(4) > 0 {
		e.Meta = randMeta(r)
	}
	return e
}

func randGroup(r *rand.Rand, name string, n int32) *types.Group {
	return &types.Group{Name: &name, Number: &n, DisplayName: optStr(r), ManagedBy: optStr(r), Capabilities: some(r, capNs, 4), UntypedMeta: umList(r), KV: kvList(r)}
}

// randStore is filled at random; the group rules in it are acyclic.
func randStore(r *rand.Rand) *store {
	s := newStore()
	for i, id := range entIDs {
		if r.Intn(3) > 0 {
			s.ents[id] = randEntity(r, id, int32(i*3+r.Intn(3)))
		}
	}
	order := r.Perm(len(grpIDs))
	for pos, gi := range order {
		if r.Intn(4) == 0 {
			continue
		}
		g := randGroup(r, grpIDs[gi], int32(gi*3+r.Intn(3)))
		for _, hi := range order[pos+1:] {
			switch r.Intn(4) {
			case 0:
				g.Expansions = append(g.Expansions, "INCLUDE:"+grpIDs[hi])
			case 1:
				g.Expansions = append(g.Expansions, "EXCLUDE:"+grpIDs[hi])
			}
		}
		s.grps[grpIDs[gi]] = g
	}
	return s
}

// ---------------------------------------------------------------- meaning

func inList[T comparable](x T, l []T) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// isMember is the meaning of membership: direct or by an include rule, and
// not by an exclude rule.
func isMember(im image, e, g string, fuel int) bool {
	grp, ok := im.grps[g]
	if !ok || fuel == 0 {
		return false
	}
	if im.ents[e] == nil {
		return false
	}
	in := inList(g, im.ents[e].GetMeta().GetGroups())
	for _, x := range grp.GetExpansions() {
		if strings.HasPrefix(x, "INCLUDE:") && isMember(im, e, x[8:], fuel-1) {
			in = true
		}
	}
	for _, x := range grp.GetExpansions() {
		if strings.HasPrefix(x, "EXCLUDE:") && isMember(im, e, x[8:], fuel-1) {
			in = false
		}
	}
	return in
}

func setOf[T comparable](l []T) map[T]bool {
	m := map[T]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func sameSet[T comparable](a, b []T) bool {
	x, y := setOf(a), setOf(b)
	if len(x) != len(y) {
		return false
	}
	for k := range x {
		if !y[k] {
			return false
		}
	}
	return true
}

func noDup[T comparable](l []T) bool { return len(setOf(l)) == len(l) }

func notBlank(l []string) []string {
	var r []string
	for _, s := range l {
		if s != "" {
			r = append(r, s)
		}
	}
	return r
}

// guard runs f and reports a panic of it, or that it does not return; if it
// takes the whole process down, the trace file says what was running.
func guard(t *testing.T, what *string, st *store, f func()) {
	in := fmt.Sprintf("%s; stored entities %v groups %v", *what, st.ents, st.grps)
	if tr := os.Getenv("VERIF_TRACE"); tr != "" {
		os.WriteFile(tr, []byte(in), 0600)
	}
	debug.SetMaxStack(64 << 20)
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	bad := ""
	select {
	case p := <-done:
		if p == nil {
			return
		}
		bad = fmt.Sprintf("panics: %v", p)
	case <-time.After(20 * time.Second):
		bad = "does not return"
	}
	report(t, "C33", "%s: %s", bad, in)
	// that is a violation of whatever the operation is for, too
	report(t, prop, "%s: %s", bad, in)
}
