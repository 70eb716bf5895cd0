ID="p25-remote-key"; PROPERTY="P25"
NEEDS="two monitors open at the same time on one client, the first of which is closed"
BREAKS="monitors are listed by the node's address instead of their own, so closing one ends another one silently"
EDITS=[("chain/icon/client/client.go","""	la := conn.LocalAddr().String()
	c.conns[la] = conn
""","""	c.conns[connKey(conn)] = conn
"""),("chain/icon/client/client.go","""	la := conn.LocalAddr().String()
	_, ok := c.conns[la]
	if ok {
		delete(c.conns, la)
	}
}
""","""	la := connKey(conn)
	_, ok := c.conns[la]
	if ok {
		delete(c.conns, la)
	}
}

func connKey(conn *websocket.Conn) string {
	return conn.RemoteAddr().String()
}
"""),("chain/icon/client/client.go","""	_, ok := c.conns[conn.LocalAddr().String()]
	return ok
""","""	_, ok := c.conns[connKey(conn)]
	return ok
""")]
PKG="chain/icon/client"
TEST='''package client
import ("net/http";"net/http/httptest";"testing";"time";"github.com/gorilla/websocket";"github.com/icon-project/btp/common/log")
func TestDemo(t *testing.T) {
	next := make(chan bool)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, err := (&websocket.Upgrader{}).Upgrade(w, r, nil)
		if err != nil { return }
		var x interface{}
		c.ReadJSON(&x)
		c.WriteJSON(map[string]interface{}{"code": 0})
		for range next { c.WriteJSON(map[string]interface{}{"header": "aGVhZGVy"}) }
	}))
	c := NewClient(s.URL, log.New())
	one, two := make(chan *websocket.Conn, 1), make(chan *websocket.Conn, 1)
	got, ends := make(chan bool, 9), make(chan error, 1)
	fin := make(chan bool)
	go func() { c.MonitorBTP(&BTPRequest{}, func(*websocket.Conn, *BTPNotification) error { return nil }, func(w *websocket.Conn) { one <- w }, func(*websocket.Conn, error) {}); close(fin) }()
	w := <-one
	go func() { ends <- c.MonitorBTP(&BTPRequest{}, func(*websocket.Conn, *BTPNotification) error { got <- true; return nil }, func(w *websocket.Conn) { two <- w }, func(*websocket.Conn, error) {}) }()
	<-two
	c.CloseMonitor(w)
	<-fin
	for i := 0; i < 3; i++ {
		for j := 0; j < 2; j++ { select { case next <- true: case <-time.After(300 * time.Millisecond): } }
		time.Sleep(100 * time.Millisecond)
	}
	select {
	case err := <-ends: t.Fatal("the other monitor ended: ", err)
	default:
	}
	if len(got) < 2 { t.Fatal("notifications got lost: ", len(got)) }
}
'''
