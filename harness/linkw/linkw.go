// Package linkw runs the real relay loop (common/link) between a simulated receiver and
// a simulated sender under a controlled scheduler.  Every call the loop makes on the
// receiver or the sender is a scheduling point: the calling goroutine is parked there and
// the explorer decides what happens next (resume it, produce a block, execute a
// transaction on the destination, deliver a report).  With GOMAXPROCS=1 a few Gosched
// calls run all other goroutines until they block, so the explorer knows that nothing
// moves between two decisions.
package linkw

import (
	"encoding/binary"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/link"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)

// Blk is a source block: its height, the size of its block update and of its messages.
type Blk struct {
	H     int64
	Bu    int64
	Msgs  []int64
	First int64 // sequence before its first message
}

func (b *Blk) Last() int64 { return b.First + int64(len(b.Msgs)) }

const (
	StyleProof     = 0 // block update and message proofs are sent (btp2)
	StyleBridge    = 1 // only message proofs are sent, one per relay message (bridge, ethbr)
	StyleCumul     = 2 // as StyleProof, block updates together stay within the limit
	StyleWitness   = 4 // as StyleProof, with block proofs for the later messages of a block
	StyleOvershoot = 3 // as StyleProof, a message proof may cross the limit by its last message
)

type Item struct {
	w        *World
	typ      link.MessageItemType
	h        int64
	from, to int64 // messages from+1..to
	n        int64
	Gen      int // of a block proof: which one it is
}

func (i *Item) Type() link.MessageItemType { return i.typ }
func (i *Item) Len() int64                 { return i.n }
func (i *Item) UpdateBMCLinkStatus(bls *types.BMCLinkStatus) error {
	if err := i.w.fault("update"); err != nil {
		return err
	}
	switch i.typ {
	case link.TypeBlockUpdate:
		bls.Verifier.Height = i.h
	case link.TypeMessageProof:
		bls.RxSeq = i.to
	}
	return nil
}
func (i *Item) SrcHeight() int64    { return 0 }
func (i *Item) TargetHeight() int64 { return i.h }
func (i *Item) ProofHeight() int64  { return i.h }
func (i *Item) StartSeqNum() int64  { return i.from }
func (i *Item) LastSeqNum() int64   { return i.to }
func (i *Item) String() string {
	if i.typ == link.TypeBlockUpdate {
		return fmt.Sprintf("block %d", i.h)
	}
	if i.typ == link.TypeBlockProof {
		return fmt.Sprintf("proof of block %d", i.h)
	}
	return fmt.Sprintf("messages %d-%d of block %d", i.from+1, i.to, i.h)
}

type rstat struct{ h, s int64 }

func (r rstat) Height() int64 { return r.h }
func (r rstat) Seq() int64    { return r.s }

// Msg is a relay message as handed to the sender.
type Msg struct {
	Id    int
	Items []*Item
	Size  int64
	N     int // number of the built message
}

func (m *Msg) String() string {
	var s []string
	for _, i := range m.Items {
		s = append(s, i.String())
	}
	return "{" + strings.Join(s, ", ") + "}"
}

type parked struct {
	name string
	at   string
	th   int
	ch   chan struct{}
}

// Fine tells that the relay loop is instrumented: with Park["y"] every statement that
// touches a field or an element is a scheduling point.
var Fine bool
var current *World

func goid() int {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	id := 0
	for _, c := range b[len("goroutine "):n] {
		if c < '0' || c > '9' {
			break
		}
		id = id*10 + int(c-'0')
	}
	return id
}

// World is one execution.
type World struct {
	Blocks   []*Blk
	Style    int
	Limit    int64
	Margin   int64
	Status   func() (*types.BMCLinkStatus, error) // answer to the loop's status requests
	Park     map[string]bool                      // calls that are scheduling points
	Relayed  []*Msg                               // in order of the Relay calls
	RelayErr func(m *Msg) error

	mu             sync.Mutex
	parked         []*parked
	abort          bool
	ending         bool
	Fault          func(call string, n int) error // fails the n-th call (from 1)
	ncall          map[string]int
	known          int // blocks the receiver holds
	taken          int // receive statuses the loop has taken
	dropped        int
	started        bool
	calls          int
	gen            int
	ycalls         int
	last           int // the goroutine resumed last
	ids            map[int]string
	built          [][]*Item
	sizes          []int64
	rsc            chan link.ReceiverMessage
	scc            chan types.SenderMessage
	repPend        int
	Done           bool
	DoneErr        error
	Fatal          string // Panicf of the loop
	Spin           bool
	Bad            []string // contract breaches seen in calls
	StatusCalls    int
	StartedWith    types.BMCLinkStatus
	lk             types.Link
	RStops, SStops int
}

// Stop asks the relay to stop.
func (w *World) Stop() {
	go w.lk.Stop()
	w.Quiesce()
}

func NewWorld(blocks []*Blk, style int, limit int64) *World {
	return &World{Blocks: blocks, Style: style, Limit: limit, rsc: make(chan link.ReceiverMessage), scc: make(chan types.SenderMessage),
		Park: map[string]bool{}, ncall: map[string]int{}, ids: map[int]string{}}
}

func (w *World) fault(name string) error {
	w.mu.Lock()
	w.ncall[name]++
	n := w.ncall[name]
	w.mu.Unlock()
	if w.Fault == nil {
		return nil
	}
	return w.Fault(name, n)
}

func (w *World) yield(name string) { w.yieldAt(name, "") }

func (w *World) yieldAt(name, at string) {
	w.mu.Lock()
	if w.ending && name == "status" {
		w.mu.Unlock()
		return
	}
	if name == "y" {
		w.ycalls++
	} else {
		w.calls++
	}
	if w.calls > 4000 || w.ycalls > 100000 {
		w.Spin = true
		w.abort = true
	}
	if w.abort {
		w.mu.Unlock()
		runtime.Goexit()
	}
	if !w.Park[name] {
		w.mu.Unlock()
		return
	}
	p := &parked{name: name, at: at, ch: make(chan struct{})}
	if w.Park["y"] {
		p.th = goid()
	}
	w.parked = append(w.parked, p)
	w.mu.Unlock()
	<-p.ch
	w.mu.Lock()
	a := w.abort
	w.mu.Unlock()
	if a {
		runtime.Goexit()
	}
}

// Quiesce lets every other goroutine run until it blocks.
func (w *World) Quiesce() {
	for i := 0; i < 12; i++ {
		runtime.Gosched()
	}
}

// ---- receiver side

type receiver struct{ w *World }

func (r receiver) Start(bls *types.BMCLinkStatus) (<-chan link.ReceiverMessage, error) {
	w := r.w
	if err := w.fault("start"); err != nil {
		return nil, err
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.started = true
	w.StartedWith = *bls
	return w.rsc, nil
}
func (r receiver) Stop() {
	r.w.mu.Lock()
	r.w.RStops++
	r.w.mu.Unlock()
}
func (r receiver) GetStatus() (link.ReceiveStatus, error) {
	w := r.w
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.known == 0 {
		return nil, errors.New("no status")
	}
	b := w.Blocks[w.known-1]
	return rstat{b.H, b.Last()}, nil
}

func (r receiver) BuildBlockUpdate(bls *types.BMCLinkStatus, limit int64) ([]link.BlockUpdate, error) {
	w := r.w
	w.yield("bu")
	if err := w.fault("bu"); err != nil {
		return nil, err
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for w.dropped < w.known && w.Blocks[w.dropped].H <= bls.Verifier.Height && w.Blocks[w.dropped].Last() <= bls.RxSeq {
		w.dropped++
	}
	var out []link.BlockUpdate
	for _, b := range w.Blocks[w.dropped:w.known] {
		if b.H <= bls.Verifier.Height {
			continue
		}
		if limit < b.Bu {
			break
		}
		if w.Style == StyleCumul {
			limit -= b.Bu
		}
		out = append(out, &Item{w: w, typ: link.TypeBlockUpdate, h: b.H, n: b.Bu})
	}
	return out, nil
}

func (r receiver) BuildBlockProof(bls *types.BMCLinkStatus, height int64) (link.BlockProof, error) {
	w := r.w
	if w.Style != StyleWitness {
		return nil, nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.gen++
	return &Item{w: w, typ: link.TypeBlockProof, h: height, n: 1, Gen: w.gen}, nil
}

func (r receiver) BuildMessageProof(bls *types.BMCLinkStatus, limit int64) (link.MessageProof, error) {
	w := r.w
	w.yield("mp")
	if err := w.fault("mp"); err != nil {
		return nil, err
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range w.Blocks[w.dropped:w.known] {
		if w.Style == StyleBridge {
			if bls.RxSeq+1 <= b.First || bls.RxSeq+1 > b.Last() {
				continue
			}
		} else if b.H != bls.Verifier.Height || bls.RxSeq >= b.Last() {
			continue
		}
		if bls.RxSeq < b.First {
			return nil, fmt.Errorf("message proof of block %d requested at sequence %d", b.H, bls.RxSeq)
		}
		i := int(bls.RxSeq - b.First)
		n := b.Msgs[i]
		j := i + 1
		for ; j < len(b.Msgs); j++ {
			if w.Style == StyleOvershoot {
				if n > limit {
					break
				}
			} else if n+b.Msgs[j] > limit {
				break
			}
			n += b.Msgs[j]
		}
		return &Item{w: w, typ: link.TypeMessageProof, h: b.H, from: bls.RxSeq, to: b.First + int64(j), n: n}, nil
	}
	return nil, nil
}

func (r receiver) GetHeightForSeq(seq int64) int64 {
	w := r.w
	w.yield("h")
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, b := range w.Blocks[w.dropped:w.known] {
		if seq > b.First && seq <= b.Last() {
			return b.H
		}
	}
	return 0
}

func (r receiver) BuildRelayMessage(rmis []link.RelayMessageItem) ([]byte, error) {
	w := r.w
	w.yield("rm")
	if err := w.fault("rm"); err != nil {
		return nil, err
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	var items []*Item
	var n int64
	for _, x := range rmis {
		it, ok := x.(*Item)
		if !ok || it == nil {
			return nil, fmt.Errorf("unknown item %T", x)
		}
		if w.Style == StyleBridge {
			if it.typ == link.TypeMessageProof {
				items, n = []*Item{it}, it.n
				break
			}
			continue
		}
		items = append(items, it)
		n += it.n
	}
	if w.Style == StyleBridge && len(items) == 0 {
		return nil, nil
	}
	w.built = append(w.built, items)
	w.sizes = append(w.sizes, n)
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(len(w.built)))
	return b, nil
}

// ---- sender side

type sender struct{ w *World }

func (s sender) Start() (<-chan types.SenderMessage, error) {
	if err := s.w.fault("sender"); err != nil {
		return nil, err
	}
	return s.w.scc, nil
}
func (s sender) Stop() {
	s.w.mu.Lock()
	s.w.SStops++
	s.w.mu.Unlock()
}
func (s sender) GetStatus() (*types.BMCLinkStatus, error) {
	s.w.yield("status")
	if err := s.w.fault("status"); err != nil {
		return nil, err
	}
	s.w.mu.Lock()
	s.w.StatusCalls++
	s.w.mu.Unlock()
	return s.w.Status()
}
func (s sender) GetMarginForLimit() int64 { return s.w.Margin }
func (s sender) TxSizeLimit() int         { return int(s.w.Limit) }
func (s sender) Relay(rm types.RelayMessage) (int, error) {
	w := s.w
	w.yield("relay")
	if err := w.fault("relay"); err != nil {
		return 0, err
	}
	b, id, size := rm.Bytes(), rm.Id(), rm.Size()
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(b) != 8 {
		w.Bad = append(w.Bad, fmt.Sprintf("an empty or foreign relay message (%d bytes) was handed to the sender", len(b)))
		return id, nil
	}
	n := int(binary.BigEndian.Uint64(b))
	if n < 1 || n > len(w.built) {
		w.Bad = append(w.Bad, fmt.Sprintf("unknown relay message %d", n))
		return id, nil
	}
	if size != int64(len(b)) {
		w.Bad = append(w.Bad, "Size() differs from the message length")
	}
	m := &Msg{Id: id, Items: w.built[n-1], Size: w.sizes[n-1], N: n}
	if o, ok := w.ids[m.Id]; ok && o != m.String() {
		w.Bad = append(w.Bad, fmt.Sprintf("the relay messages %s and %s have the same id", o, m))
	}
	w.ids[m.Id] = m.String()
	if w.RelayErr != nil {
		if err := w.RelayErr(m); err != nil {
			return 0, err
		}
	}
	w.Relayed = append(w.Relayed, m)
	return id, nil
}

// ---- logger: Panicf and Fatalf of the loop end its goroutine and are recorded

type logger struct {
	log.Logger
	w *World
}

func (l logger) WithFields(log.Fields) log.Logger { return l }
func (l logger) stop(f string, a ...interface{}) {
	l.w.mu.Lock()
	l.w.Fatal = fmt.Sprintf(f, a...)
	l.w.mu.Unlock()
	runtime.Goexit()
}
func (l logger) Panicf(f string, a ...interface{}) { l.stop(f, a...) }
func (l logger) Fatalf(f string, a ...interface{}) { l.stop(f, a...) }
func (l logger) Panic(a ...interface{})            { l.stop("%v", a) }
func (l logger) Panicln(a ...interface{})          { l.stop("%v", a) }
func (l logger) Fatal(a ...interface{})            { l.stop("%v", a) }
func (l logger) Fatalln(a ...interface{})          { l.stop("%v", a) }
func (l logger) Debugf(string, ...interface{})     {}
func (l logger) Tracef(string, ...interface{})     {}
func (l logger) Infof(string, ...interface{})      {}
func (l logger) Warnf(string, ...interface{})      {}
func (l logger) Errorf(string, ...interface{})     {}
func (l logger) Debug(...interface{})              {}
func (l logger) Debugln(...interface{})            {}
func (l logger) Infoln(...interface{})             {}
func (l logger) Info(...interface{})               {}
func (l logger) Warn(...interface{})               {}
func (l logger) Warnln(...interface{})             {}
func (l logger) Error(...interface{})              {}
func (l logger) Errorln(...interface{})            {}
func (l logger) Trace(...interface{})              {}
func (l logger) Traceln(...interface{})            {}

var base = func() log.Logger { l := log.New(); l.SetLevel(log.FatalLevel); return l }()

// Begin starts the relay loop.
func (w *World) Begin() {
	cfg := &chain.Config{}
	cfg.Src.Address = "btp://0x1.icon/cx01"
	cfg.Dst.Address = "btp://0x2.icon/cx02"
	current = nil
	w.lk = link.NewLink(cfg, receiver{w}, logger{base, w})
	if w.Park["y"] {
		current = w
	}
	go func() {
		err := w.lk.Start(sender{w})
		w.mu.Lock()
		w.Done, w.DoneErr = true, err
		w.mu.Unlock()
	}()
	w.Quiesce()
}

// Parked returns the calls that wait for the explorer.
func (w *World) Parked() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var s []string
	for _, p := range w.parked {
		s = append(s, p.name+p.at)
	}
	return s
}

// Running is the index of the parked goroutine that ran last (-1: it is blocked or gone).
func (w *World) Running() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.last < 0 && len(w.parked) > 0 {
		// a report or a block: what it set in motion goes first
		w.last = w.parked[len(w.parked)-1].th
	}
	for i, p := range w.parked {
		if p.th == w.last {
			return i
		}
	}
	return -1
}

// Coarse ends the scheduling at statements.
func (w *World) Coarse() { w.mu.Lock(); w.Park["y"] = false; w.mu.Unlock() }

func (w *World) Resume(i int) {
	w.mu.Lock()
	p := w.parked[i]
	w.last = p.th
	w.parked = append(w.parked[:i:i], w.parked[i+1:]...)
	w.mu.Unlock()
	close(p.ch)
	w.Quiesce()
}

// CanProduce: the receiver has been started and its last announcement was taken.
func (w *World) CanProduce() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.started && w.known < len(w.Blocks) && w.taken == w.known && !w.Done
}

// Produce makes the receiver hold the next block and announce it.
func (w *World) Produce() {
	w.mu.Lock()
	b := w.Blocks[w.known]
	w.known++
	w.last = -1
	w.mu.Unlock()
	var m link.ReceiverMessage = rstat{b.H, b.Last()}
	if err := w.fault("monitor"); err != nil {
		m = err
	}
	go func() {
		w.rsc <- m
		w.mu.Lock()
		w.taken++
		w.mu.Unlock()
	}()
	w.Quiesce()
}

func (w *World) Known() int   { w.mu.Lock(); defer w.mu.Unlock(); return w.known }
func (w *World) Untaken() int { w.mu.Lock(); defer w.mu.Unlock(); return w.known - w.taken }

// CanReport: the sender loop has taken the last report.
func (w *World) CanReport() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.repPend == 0 && !w.Done }

// Report delivers a result or a status to the relay loop.
func (w *World) Report(m types.SenderMessage) {
	w.mu.Lock()
	w.repPend++
	w.last = -1
	w.mu.Unlock()
	go func() {
		w.scc <- m
		w.mu.Lock()
		w.repPend--
		w.mu.Unlock()
	}()
	w.Quiesce()
}

func (w *World) RepPending() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.repPend > 0 }

// Aborted tells whether a call was made too often.
func (w *World) Snapshot() (relayed []*Msg, bad []string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*Msg(nil), w.Relayed...), append([]string(nil), w.Bad...)
}

// End lets the goroutines of the execution go away as far as they can be reached: the
// loop's Start returns on a status error, the two loops end in their next call.
func (w *World) End() {
	w.mu.Lock()
	w.ending = true
	w.Fault = nil
	w.Status = func() (*types.BMCLinkStatus, error) { return nil, errors.New("end") }
	w.mu.Unlock()
	for len(w.Parked()) > 0 && !w.Spin {
		w.Resume(0)
	}
	kill := func() {
		go func() {
			select {
			case w.scc <- &types.RelayResult{Id: -1, Err: link.BMVNotVerifiable}:
			default:
			}
		}()
		w.Quiesce()
	}
	kill() // ends Start
	w.mu.Lock()
	w.abort = true
	w.ending = false
	w.mu.Unlock()
	kill() // ends the sender loop
	go func() {
		select {
		case w.rsc <- rstat{1 << 40, 1 << 40}:
		default:
		}
	}()
	w.Quiesce()
	for {
		select {
		case <-w.rsc:
		case <-w.scc:
		default:
			w.Quiesce()
			return
		}
		w.Quiesce()
	}
}

// Dst is the destination's verifier: it executes relay messages like a BMC with a BMV.
type Dst struct {
	H, Rx  int64
	Blocks []*Blk
	Style  int
}

// Exec executes one relay message atomically; it returns the failure code (0: success).
func (d *Dst) Exec(m *Msg) int {
	h, rx := d.H, d.Rx
	ph := int64(0) // the proven block
	for _, it := range m.Items {
		switch it.typ {
		case link.TypeBlockProof:
			if it.h > h {
				return int(link.BMVNotVerifiable)
			}
			ph = it.h
		case link.TypeBlockUpdate:
			if it.h <= h {
				return int(link.BMVAlreadyVerified)
			}
			i := sort.Search(len(d.Blocks), func(i int) bool { return d.Blocks[i].H > h })
			if i >= len(d.Blocks) || d.Blocks[i].H != it.h {
				return int(link.BMVNotVerifiable)
			}
			h = it.h
		case link.TypeMessageProof:
			if d.Style == StyleBridge {
				if it.to <= rx {
					return int(link.BMVAlreadyVerified)
				}
				if it.from != rx {
					return int(link.BMVNotVerifiable)
				}
				if it.h > h {
					h = it.h
				}
			} else {
				if (it.h < h && it.h != ph) || it.to <= rx {
					return int(link.BMVAlreadyVerified)
				}
				if (it.h != h && it.h != ph) || it.from != rx {
					return int(link.BMVNotVerifiable)
				}
			}
			rx = it.to
		}
	}
	d.H, d.Rx = h, rx
	return 0
}

func (d *Dst) StatusOf() *types.BMCLinkStatus {
	s := &types.BMCLinkStatus{RxSeq: d.Rx, TxSeq: 7}
	s.Verifier.Height = d.H
	return s
}

// Cross is the number of bytes by which the message exceeds the limit without its last source message.
func (m *Msg) Cross(w *World, limit int64) int64 {
	n := m.Size
	if len(m.Items) > 0 {
		if it := m.Items[len(m.Items)-1]; it.typ == link.TypeMessageProof {
			for _, b := range w.Blocks {
				if b.H == it.h {
					n -= b.Msgs[it.to-1-b.First]
				}
			}
		} else {
			n -= it.n
		}
	}
	return n - limit
}
