// Package vsched is a controlled scheduler: all threads run one at a time and the control is handed over
// only at yield points, as the explorer decides.
//
// Nothing here creates a happens-before edge the race detector could see: all state is plain memory
// accessed by functions excluded from race instrumentation. So the race detector, when it is compiled
// in, judges every explored schedule by the synchronization of the code under test alone.
package vsched

import (
	"fmt"
	"iter"
	"runtime"
	"sort"
	"sync"
)

// MaxThreads limits the number of threads of an execution.
const MaxThreads = 8

// MaxDecisions limits the number of decision points of an execution.
const MaxDecisions = 1 << 20

// Choice is a deviation from default behaviour: option Opt is taken at decision point At.
type Choice struct{ At, Opt int }

// Kinds of decision points.
const (
	Switch  = 1 // which thread goes on when the current one cannot
	Preempt = 2 // whether (and for whom) the current thread is interrupted
	Order   = 3 // order of iteration over a map
)

type decision struct {
	kind uint8
	opts uint8
}

type state struct {
	on        bool
	fine      bool // preempt at all statements and not only at those touching shared data
	orders    bool // explore iteration orders
	preempts  bool
	n         int
	cur       int
	done      [MaxThreads]bool
	blocked   [MaxThreads]bool
	steps     int
	decisions []decision
	nd        int
	choices   []Choice
	nextC     int
	dead      bool
	over      bool
	wg        *sync.WaitGroup
	panics    [MaxThreads]any
}

var st = state{decisions: make([]decision, MaxDecisions)}

// Y is a yield point before a statement that touches thread local data only.
//
//go:norace
func Y() {
	if st.on && st.fine {
		yield()
	}
}

// S is a yield point before a statement which may touch shared data.
//
//go:norace
func S() {
	if st.on {
		yield()
	}
}

//go:norace
func yield() {
	st.steps++
	if !st.preempts || st.n < 2 {
		return
	}
	me := st.cur
	// option 0 is to go on, options 1.. are other runnable threads
	cnt := 1
	for i := 0; i < st.n; i++ {
		if i != me && !st.done[i] && !st.blocked[i] {
			cnt++
		}
	}
	if cnt == 1 {
		return
	}
	opt := decide(Preempt, cnt)
	if opt == 0 {
		return
	}
	for i := 0; i < st.n; i++ {
		if i != me && !st.done[i] && !st.blocked[i] {
			opt--
			if opt == 0 {
				st.cur = i
				break
			}
		}
	}
	wait(me)
}

//go:norace
func decide(kind, opts int) int {
	i := st.nd
	if i >= MaxDecisions {
		st.over = true
		return 0
	}
	st.decisions[i] = decision{uint8(kind), uint8(opts)}
	st.nd++
	if st.nextC < len(st.choices) && st.choices[st.nextC].At == i {
		o := st.choices[st.nextC].Opt
		st.nextC++
		if o >= opts {
			o = 0
		}
		return o
	}
	return 0
}

//go:norace
func wait(me int) {
	for st.cur != me {
		runtime.Gosched()
	}
}

// switchAway gives control to some other thread that can run; returns false if there is none.
//
//go:norace
func switchAway(me int) bool {
	cnt := 0
	for i := 0; i < st.n; i++ {
		if i != me && !st.done[i] && !st.blocked[i] {
			cnt++
		}
	}
	if cnt == 0 {
		return false
	}
	opt := 0
	if cnt > 1 {
		opt = decide(Switch, cnt)
	}
	for i := 0; i < st.n; i++ {
		if i != me && !st.done[i] && !st.blocked[i] {
			if opt == 0 {
				st.cur = i
				return true
			}
			opt--
		}
	}
	return false
}

// Deadlock is the panic value in threads that are blocked for good.
type Deadlock struct{}

func (Deadlock) String() string { return "deadlock" }

// Blocked is called by synchronization primitives when the current thread cannot go on.
// It returns when the thread must try again.
//
//go:norace
func Blocked() {
	if !st.on {
		panic("vsched: blocked outside of a controlled execution")
	}
	me := st.cur
	st.blocked[me] = true
	if !switchAway(me) {
		st.dead = true
		for i := range st.blocked {
			st.blocked[i] = false
		}
		panic(Deadlock{})
	}
	wait(me)
	if st.dead {
		panic(Deadlock{})
	}
}

// Wake is called when some resource was released: all blocked threads try again.
//
//go:norace
func Wake() {
	if st.on {
		for i := range st.blocked {
			st.blocked[i] = false
		}
	}
}

// Active tells whether the scheduler is in charge.
//
//go:norace
func Active() bool { return st.on }

// Steps is a logical clock.
//
//go:norace
func Steps() int { st.steps++; return st.steps }

// Go starts a controlled thread.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	id := enroll()
	if id < 0 {
		panic("vsched: too many threads")
	}
	st.wg.Add(1)
	go thread(id, f)
	S()
}

//go:norace
func enroll() int {
	if st.n >= MaxThreads {
		return -1
	}
	st.n++
	return st.n - 1
}

func thread(id int, f func()) {
	defer st.wg.Done()
	defer finish(id)
	wait(id)
	f()
}

//go:norace
func setPanic(id int, p any) { st.panics[id] = p }

func finish(id int) {
	if p := recover(); p != nil {
		setPanic(id, p)
	}
	exit(id)
}

//go:norace
func exit(id int) {
	st.done[id] = true
	for i := range st.blocked {
		st.blocked[i] = false
	}
	if !switchAway(id) {
		st.cur = -1
	}
}

// Options control an execution.
type Options struct {
	Fine, Preempts, Orders bool
}

// Result describes an execution.
type Result struct {
	Decisions []byte // kind<<5|options
	Steps     int
	Dead      bool
	Overflow  bool
	Panics    []any
}

// Execute runs threads under given choices.
func Execute(o Options, choices []Choice, threads ...func()) Result {
	var wg sync.WaitGroup
	begin(o, choices, len(threads), &wg)
	wg.Add(len(threads))
	for i, f := range threads {
		go thread(i, f)
	}
	start()
	wg.Wait()
	return end(len(threads))
}

//go:norace
func begin(o Options, choices []Choice, n int, wg *sync.WaitGroup) {
	d := st.decisions
	st = state{decisions: d, cur: -2, n: n, choices: choices, fine: o.Fine, orders: o.Orders, preempts: o.Preempts, wg: wg}
}

//go:norace
func start() {
	st.on = true
	first := 0
	if st.n > 1 {
		first = decide(Switch, st.n)
	}
	st.cur = first
}

//go:norace
func end(n int) Result {
	st.on = false
	r := Result{Steps: st.steps, Dead: st.dead, Overflow: st.over}
	r.Decisions = make([]byte, st.nd)
	for i := range r.Decisions {
		o := st.decisions[i].opts
		r.Decisions[i] = st.decisions[i].kind<<5 | o
	}
	for i := 0; i < st.n; i++ {
		r.Panics = append(r.Panics, st.panics[i])
	}
	return r
}

//go:norace
func exploringOrders() bool { return st.on && st.orders }

//go:norace
func decideOrder(n int) int { return decide(Order, n) }

// maxOrders is the number of orders tried for one iteration (option counts are kept in 5 bits).
const maxOrders = 24

// Keys returns map keys in the order chosen by the explorer. Default order is ascending.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return less(keys[i], keys[j]) })
	if len(keys) < 2 || !exploringOrders() {
		return keys
	}
	ps := orders(len(keys))
	p := ps[decideOrder(len(ps))]
	res := make([]K, len(keys))
	for i, j := range p {
		res[i] = keys[j]
	}
	return res
}

func less(a, b any) bool {
	switch x := a.(type) {
	case int:
		return x < b.(int)
	case string:
		return x < b.(string)
	}
	return fmt.Sprint(a) < fmt.Sprint(b)
}

var orderCache [256][][]int

// orders returns all permutations of up to 4 elements; for more elements the reversed order, all
// rotations, and all orders where one element is moved to the beginning or to the end (up to the limit).
func orders(n int) [][]int {
	if n < len(orderCache) && orderCache[n] != nil {
		return orderCache[n]
	}
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	var res [][]int
	if n <= 4 {
		var perm func(p []int, rest []int)
		perm = func(p []int, rest []int) {
			if len(rest) == 0 {
				res = append(res, append([]int(nil), p...))
				return
			}
			for i := range rest {
				r := append(append([]int(nil), rest[:i]...), rest[i+1:]...)
				perm(append(p[:len(p):len(p)], rest[i]), r)
			}
		}
		perm(nil, id)
	} else {
		seen := map[string]bool{}
		add := func(p []int) {
			k := fmt.Sprint(p)
			if !seen[k] && len(res) < maxOrders {
				seen[k] = true
				res = append(res, p)
			}
		}
		add(id)
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		add(rev)
		move := func(i int, front bool) {
			p := append(append([]int(nil), id[:i]...), id[i+1:]...)
			if front {
				p = append([]int{i}, p...)
			} else {
				p = append(p, i)
			}
			add(p)
		}
		step := 1
		if n > 10 {
			step = n / 10
		}
		for i := 0; i < n; i += step {
			move(i, true)
			move(i, false)
		}
		move(n-1, true)
	}
	if n < len(orderCache) {
		orderCache[n] = res
	}
	return res
}

// MapSeq replaces iteration over a map.
func MapSeq[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range Keys(m) {
			v, ok := m[k]
			if ok && !yield(k, v) {
				return
			}
		}
	}
}

// MapsAll replaces maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return MapSeq(m) }

// MapsKeys replaces maps.Keys.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range MapSeq(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues replaces maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range MapSeq(m) {
			if !yield(v) {
				return
			}
		}
	}
}
