package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/sha3"

	"verif/fake"
	"verif/mc"
	"verif/ref"
	"verif/sendw"
)

// tx is a transaction in the destination's pool.
type tx struct {
	i    *fake.IconTx
	e    *sendw.EthTx
	ran  bool
	lost bool
	code int
	done chan bool
}

// side is one chain: a source, a destination or both.
type side struct {
	w        *world
	kind     string // icon, eth
	bridge   bool
	addr     string
	acc      string
	url      string
	peer     *side
	inode    *fake.Icon
	enode    *fake.Eth
	icon     *sendw.IconWorld
	eth      *sendw.EthWorld
	k        *contract // the verifier of the link from the peer
	msgs     [][]byte  // as source: all messages
	lasts    []int64   // as source: sequence after each block
	blocks   []*fake.EBlock
	released int
	pool     []*tx
	refused  []string
	code     int
	unreg    func()
	handler  http.Handler
}

type conf struct {
	src, dst string // btp2, bridge, eth
	dir      string // front, reverse, both
	cnt      []int
	back     []int // messages of the other direction (both)
	size     int
	offset   int64
	first    int64
	group    int    // 0 all before the start, 1 one by one, 2 all at once after the start
	lag      bool   // transactions run late
	fate     string // of transactions that wait when the relay is killed: run, late, lost
	lose     int    // the n-th transaction is lost
}

func (f conf) String() string {
	return fmt.Sprintf("%s to %s %s blocks%v%v size%d offset%d.%d group%d lag=%v fate=%s lose=%d", f.src, f.dst, f.dir, f.cnt, f.back, f.size, f.offset, f.first, f.group, f.lag, f.fate, f.lose)
}

type world struct {
	mu      sync.Mutex
	c       *mc.C
	f       conf
	s       [2]*side
	n       int // interactions
	crashAt int
	crashed bool
	step    []string
	dir     string
	cmd     *exec.Cmd
	exited  chan error
	out     *bytes.Buffer
	outMu   sync.Mutex
	quit    chan bool // closed when the relay process is gone
	calls   int       // being handled
	sends   int
}

var addrs = [2]map[string]string{
	{"icon": "btp://0x53.icon/cx00000000000000000000000000000000000000bb", "eth": "btp://0x61.eth/0x00000000000000000000000000000000000000aA"},
	{"icon": "btp://0x2.icon/cx0000000000000000000000000000000000000002", "eth": "btp://0x62.eth/0x00000000000000000000000000000000000000Cc"},
}

func kind(s string) string {
	if s == "eth" {
		return "eth"
	}
	return "icon"
}

func newWorld(c *mc.C, f conf, crashAt int) *world {
	w := &world{c: c, f: f, crashAt: crashAt, out: &bytes.Buffer{}}
	// The destination of the first direction has the addresses the reference verifiers know.
	d := &side{w: w, kind: kind(f.dst), bridge: f.dst == "bridge"}
	s := &side{w: w, kind: kind(f.src), bridge: f.src == "bridge"}
	d.addr = addrs[0][d.kind]
	s.addr = addrs[0][s.kind]
	if s.kind == d.kind {
		s.addr = addrs[1][s.kind]
	}
	w.s = [2]*side{s, d}
	s.peer, d.peer = d, s
	for _, x := range w.s {
		x.acc = x.addr[strings.LastIndex(x.addr, "/")+1:]
		if x.kind == "icon" {
			x.inode = fake.NewIcon(&fake.IChain{Nid: 2, Start: 3, Offset: f.offset})
		} else {
			x.enode = fake.NewEth(fake.NewEBlock(8), fake.NewEBlock(9))
			x.enode.Fresh = true
			x.enode.SetHead(9)
		}
	}
	s.emit(f.cnt)
	d.receive()
	if f.dir == "both" {
		d.emit(f.back)
		s.receive()
	}
	for _, x := range w.s {
		x.register()
	}
	return w
}

var heights = []int64{10, 11, 14, 15, 200, 201, 202}

func text(dir string, b, i, size int) []byte {
	m := []byte(fmt.Sprintf("%s %d.%d:", dir, b, i))
	n := []int{20, 150000, 700000}[size]
	for len(m) < n {
		m = append(m, byte('a'+(len(m)+i)%26))
	}
	return m
}

// emit makes the side a source of these blocks.
func (s *side) emit(cnt []int) {
	f := s.w.f
	seq := f.offset + f.first
	if s.kind == "eth" {
		seq = f.first
	}
	for i, n := range cnt {
		var ms [][]byte
		var logs []fake.ELog
		logs = append(logs, fake.ELog{Addr: common.HexToAddress(s.acc), Topic: fake.MessageTopic, Next: "btp://0x9.icon/cx09", Seq: seq + 5, Msg: []byte("for another link")})
		for j := 0; j < n; j++ {
			m := text(s.kind, i, j, f.size)
			ms = append(ms, m)
			s.msgs = append(s.msgs, m)
			logs = append(logs, fake.ELog{Tx: uint(1 + j/2), Addr: common.HexToAddress(s.acc), Topic: fake.MessageTopic, Next: s.peer.addr, Seq: seq + int64(j) + 1, Msg: m})
		}
		seq += int64(n)
		s.lasts = append(s.lasts, seq)
		if s.kind == "icon" {
			s.inode.C.Blocks = append(s.inode.C.Blocks, &fake.IBlock{H: heights[i], Ctx: n == 0 || i%2 == 1, Msgs: ms})
		} else {
			s.blocks = append(s.blocks, fake.NewEBlock(10+int64(i), logs...))
		}
	}
	if s.kind == "icon" {
		s.inode.C.Finish(f.first)
	}
}

// receive makes the side a destination of its peer.
func (d *side) receive() {
	f, s := d.w.f, d.peer
	k := &contract{btp2: s.kind == "icon" && !s.bridge, self: d.addr, h: 9, first: f.first, offset: f.offset, rx: f.offset + f.first, evs: map[int64]event{}}
	if s.kind == "icon" {
		k.ch = s.inode.C
		for _, b := range k.ch.Blocks {
			for j, m := range b.Msgs {
				k.evs[f.offset+b.First+int64(j)+1] = event{b.H, m}
			}
		}
	} else {
		k.rx = f.first
		for _, b := range s.blocks {
			for _, l := range b.Logs[1:] {
				k.evs[l.Seq] = event{b.H, l.Msg}
			}
		}
	}
	d.k = k
	if d.kind == "icon" {
		d.icon = sendw.NewIconDest(d.inode, s.addr, sendw.DefStep)
		d.icon.Pass = true
		d.icon.D.To = d.acc
		d.icon.D.Nid = strings.SplitN(strings.TrimPrefix(d.addr, "btp://"), ".", 2)[0]
		d.icon.D.Relay = func(prev string, m []byte) {
			if prev != s.addr {
				d.refused = append(d.refused, "message for link "+prev)
			}
			code, why := d.k.exec(m)
			if d.code = code; code != ok {
				d.refused = append(d.refused, fmt.Sprintf("%d: %s", code, why))
			}
		}
		d.icon.Send = func(n int, t *fake.IconTx) (*fake.Answer, bool) { d.submit(&tx{i: t}); return nil, false }
		d.icon.Result = func(n int, h string) *fake.Answer {
			t := d.find(func(t *tx) bool { return t.i.Hash == h })
			if t == nil {
				return &fake.Answer{Err: `{"code":-31004,"message":"E1005:NotFound"}`}
			}
			t.await(d.w)
			if t.lost {
				return &fake.Answer{Err: `{"code":-31004,"message":"E1005:NotFound"}`}
			}
			if t.code == ok {
				return sendw.Success
			}
			return &fake.Answer{Result: fmt.Sprintf(`{"to":"%s","status":"0x0","failure":{"code":"0x%x","message":"Reverted(%d)"},"txHash":"%s"}`, d.acc, 32+t.code, t.code, h)}
		}
		d.icon.Status = func(n int) *fake.Answer {
			d.w.mu.Lock()
			defer d.w.mu.Unlock()
			return &fake.Answer{Result: fmt.Sprintf(`{"tx_seq":"0x3","rx_seq":"0x%x","verifier":{"height":"0x%x","extra":"0x%s"},"relays":[],"cur_height":"0x64"}`, d.k.rx, d.k.h, hex.EncodeToString(d.k.extra()))}
		}
		return
	}
	d.eth = sendw.NewEthDest(d.enode, s.addr, false)
	d.eth.Pass = true
	d.eth.Send = func(n int, t *sendw.EthTx) *fake.Answer { d.submit(&tx{e: t}); return nil }
	byHash := func(h common.Hash) *tx { return d.find(func(t *tx) bool { return t.e.Tx.Hash() == h }) }
	d.eth.Tx = func(n int, h common.Hash) (string, *fake.Answer) {
		t := byHash(h)
		if t == nil {
			return "none", nil
		}
		t.await(d.w)
		if t.lost {
			return "none", nil
		}
		return "mined", nil
	}
	d.eth.Receipt = func(n int, h common.Hash) (string, *fake.Answer) {
		if t := byHash(h); t != nil && t.ran && t.code != ok {
			return "failed", nil
		}
		return "ok", nil
	}
	d.eth.Call = func(n int, t *sendw.EthTx) *fake.Answer {
		x := byHash(t.Tx.Hash())
		return &fake.Answer{Status: 200, Err: fmt.Sprintf(`{"code":3,"message":"execution reverted: %d:x"}`, x.code)}
	}
	d.eth.StatusA = func(n int) *fake.Answer {
		d.w.mu.Lock()
		defer d.w.mu.Unlock()
		return &fake.Answer{Result: `"` + fake.Hex(sendw.EthStatus(big.NewInt(d.k.rx), big.NewInt(3), big.NewInt(d.k.h), d.k.extra())) + `"`}
	}
}

func (d *side) find(f func(*tx) bool) *tx {
	d.w.mu.Lock()
	defer d.w.mu.Unlock()
	for _, t := range d.pool {
		if f(t) {
			return t
		}
	}
	return nil
}

func (t *tx) await(w *world) {
	w.mu.Lock()
	q := w.quit
	w.mu.Unlock()
	select {
	case <-t.done:
	case <-q:
	}
}

// submit takes a transaction into the pool.
func (d *side) submit(t *tx) {
	d.w.mu.Lock()
	defer d.w.mu.Unlock()
	t.done = make(chan bool)
	d.pool = append(d.pool, t)
	d.w.sends++
	if d.w.sends == d.w.f.lose && d.ahead() < d.peer.lasts[len(d.peer.lasts)-1] {
		// the last one is never lost: no later message would tell
		t.lost = true
		close(t.done)
		return
	}
	if !d.w.f.lag {
		d.run(t)
	}
}

// run executes a transaction; the caller holds the lock.
func (d *side) run(t *tx) {
	d.code = ok
	if t.i != nil {
		if err := d.icon.D.Execute(t.i); err != nil {
			d.code = 10
			d.refused = append(d.refused, err.Error())
		}
	} else {
		code, why := d.k.exec(t.e.Msg)
		if d.code = code; code != ok {
			d.refused = append(d.refused, fmt.Sprintf("%d: %s", code, why))
		}
	}
	t.code, t.ran = d.code, true
	close(t.done)
}

func (d *side) waiting() (o []*tx) {
	for _, t := range d.pool {
		if !t.ran && !t.lost {
			o = append(o, t)
		}
	}
	return
}

func (d *side) runAll() {
	for _, t := range d.waiting() {
		d.run(t)
	}
}

// ahead tells the sequence the destination would reach with what is in the pool.
func (d *side) ahead() int64 {
	c := d.k.clone()
	var parts []byte
	for _, t := range d.waiting() {
		switch {
		case t.e != nil:
			c.exec(t.e.Msg)
		case t.i.Method == "handleRelayMessage":
			c.exec(t.i.Msg)
		default:
			if t.i.Idx < 0 {
				parts = nil
			}
			parts = append(parts, t.i.Msg...)
			if t.i.Idx == 0 {
				c.exec(parts)
			}
		}
	}
	return c.rx
}

// register serves the node, with every call being a point where the relay may be killed.
func (s *side) register() {
	point := func(m string) bool {
		if s.w.crashAt == 0 {
			return false
		}
		return s.w.point(s.kind + " " + m)
	}
	var h http.Handler
	if s.inode != nil {
		orig := s.inode.Override
		s.inode.Override = func(m string, n int, p json.RawMessage) *fake.Answer {
			if point(m) {
				return &fake.Answer{Drop: true}
			}
			if orig == nil {
				return nil
			}
			a := orig(m, n, p)
			if a != nil && m == "icx_sendTransaction" && point(m+" done") {
				return &fake.Answer{Drop: true}
			}
			return a
		}
		h = s.inode
	} else {
		orig := s.enode.Override
		s.enode.Override = func(m string, n int, p []json.RawMessage) *fake.Answer {
			if point(m) {
				return &fake.Answer{Drop: true}
			}
			if orig == nil {
				return nil
			}
			a := orig(m, n, p)
			if a != nil && m == "eth_sendRawTransaction" && point(m+" done") {
				return &fake.Answer{Drop: true}
			}
			return a
		}
		h = s.enode
	}
	s.handler = h
}

// connect gives the nodes fresh addresses, so that nothing a killed process left in
// flight is taken for a request of the next one.
func (w *world) connect() {
	w.mu.Lock()
	w.quit = make(chan bool)
	w.mu.Unlock()
	for _, s := range w.s {
		h := s.handler
		s.url, s.unreg = fake.TheHub().Register(http.HandlerFunc(func(rw http.ResponseWriter, r *http.Request) {
			w.mu.Lock()
			w.calls++
			w.mu.Unlock()
			defer func() {
				w.mu.Lock()
				w.calls--
				w.mu.Unlock()
			}()
			h.ServeHTTP(rw, r)
		}))
		if s.blocks != nil {
			s.url = strings.Replace(s.url, "http", "ws", 1)
		}
	}
}

func (w *world) disconnect() {
	close(w.quit)
	for _, s := range w.s {
		if s.unreg != nil {
			s.unreg()
		}
	}
	fake.Wait(10*time.Second, func() bool { w.mu.Lock(); defer w.mu.Unlock(); return w.calls == 0 })
}

func (w *world) point(name string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.n++
	if w.n != w.crashAt {
		return w.crashed && w.cmd == nil
	}
	w.step = append(w.step, fmt.Sprintf("killed at interaction %d, %s", w.n, name))
	w.crashed = true
	if w.cmd != nil {
		w.cmd.Process.Signal(syscall.SIGKILL)
	}
	return true
}

// release makes one more block visible.
func (s *side) release() {
	if s.kind == "icon" {
		s.released++
		s.inode.Release(s.released)
		return
	}
	b := fake.NewEBlock(10 + int64(s.released))
	if s.released < len(s.blocks) {
		b = s.blocks[s.released]
	}
	s.released++
	s.enode.Mine(b)
}

func (s *side) total() int {
	if s.kind == "icon" {
		return len(s.inode.C.Blocks)
	}
	return len(s.blocks)
}

func keystore(k string, main bool) map[string]interface{} {
	seed := "relay"
	if !main {
		seed = "other"
	}
	salt, iv := bytes.Repeat([]byte{7}, 8), bytes.Repeat([]byte{9}, 16)
	if k == "icon" {
		h := sha3.Sum256([]byte(seed))
		return ref.KeyStore("icx", h[:], []byte("pw"), salt, iv, 2, 1, 1)
	}
	return ref.KeyStore("evm", crypto.Keccak256([]byte(seed)), []byte("pw"), salt, iv, 2, 1, 1)
}

func (w *world) start() {
	w.connect()
	if w.dir == "" {
		d, err := os.MkdirTemp(mc.Scratch(), "e2e")
		if err != nil {
			panic("harness: " + err.Error())
		}
		w.dir = d
	}
	one := func(s *side) map[string]interface{} {
		return map[string]interface{}{"address": s.addr, "endpoint": s.url, "key_store": keystore(s.kind, s.k != nil), "key_password": "pw", "bridge_mode": s.bridge}
	}
	src, dst := w.s[0], w.s[1]
	if w.f.dir == "reverse" {
		src, dst = dst, src
	}
	b, _ := json.Marshal(map[string]interface{}{"src": one(src), "dst": one(dst), "direction": w.f.dir, "log_level": "debug", "console_level": "debug", "base_dir": "data"})
	if err := os.WriteFile(filepath.Join(w.dir, "c.json"), b, 0600); err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(os.Getenv("VERIF_RELAY"), "--config", "c.json", "start")
	cmd.Dir = w.dir
	cmd.Env = []string{"HOME=" + w.dir, "GOTRACEBACK=single"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	cmd.Stdout, cmd.Stderr = w, w
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	ch := make(chan error, 1)
	w.mu.Lock()
	w.cmd, w.exited = cmd, ch
	w.mu.Unlock()
	go func() { ch <- cmd.Wait() }()
}

// Write keeps the end of the program's output.
func (w *world) Write(b []byte) (int, error) {
	w.outMu.Lock()
	defer w.outMu.Unlock()
	w.out.Write(b)
	if w.out.Len() > 40000 {
		w.out.Next(w.out.Len() - 20000)
	}
	return len(b), nil
}

func (w *world) tail() string {
	w.outMu.Lock()
	defer w.outMu.Unlock()
	s := w.out.String()
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
		if len(s) > 600 {
			s = s[:600]
		}
	}
	if len(s) > 600 {
		s = s[len(s)-600:]
	}
	return s
}

func (w *world) close() {
	w.mu.Lock()
	cmd, ch := w.cmd, w.exited
	w.mu.Unlock()
	if cmd != nil {
		cmd.Process.Kill()
		select {
		case e := <-ch:
			ch <- e
		case <-time.After(10 * time.Second):
		}
	}
	for _, s := range w.s {
		if s.inode != nil {
			s.inode.Close()
		} else {
			s.enode.Close()
		}
	}
	w.disconnect()
	if w.dir != "" {
		os.RemoveAll(w.dir)
	}
}
