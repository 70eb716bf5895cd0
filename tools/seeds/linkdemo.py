# A small receiver and sender for demonstrations inside package link.
HEAD = '''package link
import (
	"fmt"
	"sync"
	"testing"
	"time"
	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/log"
	"github.com/icon-project/btp/common/types"
)
var _ = fmt.Sprint
var _ = time.Now
type drs struct{ h, s int64 }
func (r drs) Height() int64 { return r.h }
func (r drs) Seq() int64 { return r.s }
type dit struct { t MessageItemType; h, from, to, n int64 }
func (i *dit) Type() MessageItemType { return i.t }
func (i *dit) Len() int64 { return i.n }
func (i *dit) UpdateBMCLinkStatus(b *types.BMCLinkStatus) error {
	if i.t == TypeBlockUpdate { b.Verifier.Height = i.h }
	if i.t == TypeMessageProof { b.RxSeq = i.to }
	return nil
}
func (i *dit) SrcHeight() int64 { return i.h - 1 }
func (i *dit) TargetHeight() int64 { return i.h }
func (i *dit) ProofHeight() int64 { return i.h }
func (i *dit) StartSeqNum() int64 { return i.from }
func (i *dit) LastSeqNum() int64 { return i.to }
type drc struct {
	mu sync.Mutex
	c chan ReceiverMessage
	rs []drs
	buLen, mpLen int64
	old bool
	renewed []int64
}
func (r *drc) Start(*types.BMCLinkStatus) (<-chan ReceiverMessage, error) { return r.c, nil }
func (r *drc) Stop() {}
func (r *drc) GetStatus() (ReceiveStatus, error) { return nil, nil }
func (r *drc) add(h, s int64) {
	r.mu.Lock(); r.rs = append(r.rs, drs{h, s}); r.mu.Unlock()
	r.c <- drs{h, s}
}
func (r *drc) BuildBlockUpdate(b *types.BMCLinkStatus, limit int64) (o []BlockUpdate, e error) {
	r.mu.Lock(); defer r.mu.Unlock()
	for _, x := range r.rs { if x.h > b.Verifier.Height { o = append(o, &dit{t: TypeBlockUpdate, h: x.h, n: r.buLen}) } }
	return
}
func (r *drc) BuildBlockProof(b *types.BMCLinkStatus, h int64) (BlockProof, error) {
	if r.old { r.renewed = append(r.renewed, h) ; return &dit{t: TypeBlockProof, h: h, n: 1}, nil }
	return &dit{t: TypeBlockProof, h: h, n: 1}, nil
}
func (r *drc) BuildMessageProof(b *types.BMCLinkStatus, limit int64) (MessageProof, error) {
	r.mu.Lock(); defer r.mu.Unlock()
	for _, x := range r.rs {
		if x.h == b.Verifier.Height && x.s > b.RxSeq {
			n := limit / r.mpLen
			if n < 0 { return nil, nil }
			if n == 0 { n = 1 }
			to := b.RxSeq + n
			if to > x.s { to = x.s }
			return &dit{t: TypeMessageProof, h: x.h, from: b.RxSeq + 1, to: to, n: (to - b.RxSeq) * r.mpLen}, nil
		}
	}
	return nil, nil
}
func (r *drc) GetHeightForSeq(int64) int64 { return 0 }
func (r *drc) BuildRelayMessage(is []RelayMessageItem) ([]byte, error) {
	s := ""
	for _, i := range is { d := i.(*dit); s += fmt.Sprintf("%d:%d:%d-%d ", d.t, d.h, d.from, d.to) }
	return []byte(s), nil
}
type dsn struct {
	mu sync.Mutex
	c chan types.SenderMessage
	sent []types.RelayMessage
	limit int
	st types.BMCLinkStatus
}
func (s *dsn) Start() (<-chan types.SenderMessage, error) { return s.c, nil }
func (s *dsn) Stop() {}
func (s *dsn) GetStatus() (*types.BMCLinkStatus, error) { s.mu.Lock(); defer s.mu.Unlock(); x := s.st; return &x, nil }
func (s *dsn) Relay(m types.RelayMessage) (int, error) { s.mu.Lock(); defer s.mu.Unlock(); s.sent = append(s.sent, m); return m.Id(), nil }
func (s *dsn) GetMarginForLimit() int64 { return 0 }
func (s *dsn) TxSizeLimit() int { return s.limit }
func (s *dsn) count() int { s.mu.Lock(); defer s.mu.Unlock(); return len(s.sent) }
func dstart(limit int) (*drc, *dsn, chan error) {
	r := &drc{c: make(chan ReceiverMessage), buLen: 5, mpLen: 5}
	s := &dsn{c: make(chan types.SenderMessage), limit: limit}
	s.st.Verifier.Height = 1
	cfg := &chain.Config{}
	cfg.Src.Address, cfg.Dst.Address = "btp://0x1.icon/cx01", "btp://0x2.icon/cx02"
	e := make(chan error, 1)
	l := NewLink(cfg, r, log.New())
	go func() {
		defer func() { if x := recover(); x != nil { e <- fmt.Errorf("%v", x) } }()
		e <- l.Start(s)
	}()
	return r, s, e
}
func dwait(t *testing.T, e chan error, f func() bool) {
	for i := 0; i < 1500; i++ {
		if f() { return }
		select {
		case err := <-e: t.Fatal("relay ended: ", err)
		default: time.Sleep(2 * time.Millisecond)
		}
	}
	t.Fatal("nothing happens")
}
'''
