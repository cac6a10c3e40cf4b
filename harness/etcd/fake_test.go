package etcd

import (
	"context"
	"net"
	"sort"
	"strings"
	"sync"
	"time"

	pb "go.etcd.io/etcd/api/v3/etcdserverpb"
	"go.etcd.io/etcd/api/v3/mvccpb"
	"go.etcd.io/etcd/api/v3/v3rpc/rpctypes"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/status"
)

// fake is an etcd server in the process, as far as this library and etcd's own
// client need one: revisions, ranges, transactions on one comparison, leases
// and watches from any revision. Leases end only when the test says so.
type fake struct {
	pb.UnimplementedKVServer
	pb.UnimplementedLeaseServer
	pb.UnimplementedWatchServer

	mu      sync.Mutex
	rev     int64
	compact int64
	kv      map[string]*mvccpb.KeyValue
	leases  map[int64]*lease
	nlease  int64
	hist    []*mvccpb.Event // ModRevision is the event's
	wake    chan struct{}

	// fail, by method, the calls numbered in the list (1 is the next)
	calls map[string]int
	errs  map[string]map[int]bool
	// runs once with the answer of a range over a prefix in hand, before it is sent
	onList  func()
	conns   map[net.Conn]bool
	ln      net.Listener
	srv     *grpc.Server
	sent    map[int64]int // events delivered to watchers, by revision
	refused bool          // new connections are closed at once
}

type lease struct {
	ttl   int64
	alive int // keepalive requests seen
	keys  map[string]bool
}

func newFake() *fake {
	f := &fake{rev: 1, kv: map[string]*mvccpb.KeyValue{}, leases: map[int64]*lease{}, nlease: 1000, wake: make(chan struct{}),
		calls: map[string]int{}, errs: map[string]map[int]bool{}, conns: map[net.Conn]bool{}, sent: map[int64]int{}}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	f.ln = ln
	f.srv = grpc.NewServer()
	pb.RegisterKVServer(f.srv, f)
	pb.RegisterLeaseServer(f.srv, f)
	pb.RegisterWatchServer(f.srv, f)
	go f.srv.Serve(&trackLn{ln, f})
	return f
}

type trackLn struct {
	net.Listener
	f *fake
}

type trackConn struct {
	net.Conn
	f *fake
}

func (c *trackConn) Close() error {
	c.f.mu.Lock()
	delete(c.f.conns, c)
	c.f.mu.Unlock()
	return c.Conn.Close()
}

func (l *trackLn) Accept() (net.Conn, error) {
	for {
		c, err := l.Listener.Accept()
		if err != nil {
			return nil, err
		}
		l.f.mu.Lock()
		if l.f.refused {
			l.f.mu.Unlock()
			c.Close()
			continue
		}
		t := &trackConn{c, l.f}
		l.f.conns[t] = true
		l.f.mu.Unlock()
		return t, nil
	}
}

func (f *fake) endpoint() []string { return []string{f.ln.Addr().String()} }

func (f *fake) stop() { f.srv.Stop(); f.ln.Close() }

// drop breaks every connection.
func (f *fake) drop() {
	f.mu.Lock()
	var cs []net.Conn
	for c := range f.conns {
		cs = append(cs, c)
	}
	f.mu.Unlock()
	for _, c := range cs {
		c.Close()
	}
}

func (f *fake) setRefused(on bool) { f.mu.Lock(); f.refused = on; f.mu.Unlock() }

// connections tells how many connections there are.
func (f *fake) connections() int { f.mu.Lock(); defer f.mu.Unlock(); return len(f.conns) }

func (f *fake) hdr() *pb.ResponseHeader {
	return &pb.ResponseHeader{ClusterId: 1, MemberId: 1, Revision: f.rev, RaftTerm: 1}
}

// gate counts the call and tells whether it has to fail.
func (f *fake) gate(m string) error {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls[m]++
	if f.errs[m][f.calls[m]] {
		return status.Error(codes.PermissionDenied, "fake: "+m+" is refused")
	}
	return nil
}

// failNext makes the k-th next call of m fail.
func (f *fake) failNext(m string, k int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.errs[m] == nil {
		f.errs[m] = map[int]bool{}
	}
	f.errs[m][f.calls[m]+k] = true
}

func (f *fake) clearFail() { f.mu.Lock(); f.errs = map[string]map[int]bool{}; f.mu.Unlock() }

func (f *fake) bump() { close(f.wake); f.wake = make(chan struct{}) }

func (f *fake) put(key, value string, id int64) error {
	if id != 0 {
		l := f.leases[id]
		if l == nil {
			return rpctypes.ErrGRPCLeaseNotFound
		}
		l.keys[key] = true
	}
	f.rev++
	old := f.kv[key]
	kv := &mvccpb.KeyValue{Key: []byte(key), Value: []byte(value), CreateRevision: f.rev, ModRevision: f.rev, Version: 1, Lease: id}
	if old != nil {
		kv.CreateRevision, kv.Version = old.CreateRevision, old.Version+1
		if l := f.leases[old.Lease]; l != nil && old.Lease != id {
			delete(l.keys, key)
		}
	}
	f.kv[key] = kv
	f.hist = append(f.hist, &mvccpb.Event{Type: mvccpb.PUT, Kv: kv})
	f.bump()
	return nil
}

// del deletes the keys as one revision.
func (f *fake) del(keys []string) {
	n := 0
	for _, k := range keys {
		old := f.kv[k]
		if old == nil {
			continue
		}
		if n == 0 {
			f.rev++
		}
		n++
		delete(f.kv, k)
		if l := f.leases[old.Lease]; l != nil {
			delete(l.keys, k)
		}
		f.hist = append(f.hist, &mvccpb.Event{Type: mvccpb.DELETE, Kv: &mvccpb.KeyValue{Key: []byte(k), ModRevision: f.rev}})
	}
	if n > 0 {
		f.bump()
	}
}

// Put and Del are changes made by somebody else.
func (f *fake) PutKey(key, value string) { f.mu.Lock(); f.put(key, value, 0); f.mu.Unlock() }
func (f *fake) DelKeys(keys ...string)   { f.mu.Lock(); f.del(keys); f.mu.Unlock() }

// expire ends the lease that holds key.
func (f *fake) expire(key string) bool { return f.expireTo(key, "") }

// expireTo ends the lease that holds key, and somebody else takes the key.
func (f *fake) expireTo(key, value string) bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	kv := f.kv[key]
	if kv == nil || f.leases[kv.Lease] == nil {
		return false
	}
	f.endLease(kv.Lease)
	if value != "" {
		f.put(key, value, 0)
	}
	return true
}

func (f *fake) endLease(id int64) bool {
	l := f.leases[id]
	if l == nil {
		return false
	}
	var ks []string
	for k := range l.keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	delete(f.leases, id)
	f.del(ks)
	return true
}

// compactNow forgets the history.
func (f *fake) compactNow() {
	f.mu.Lock()
	f.compact = f.rev
	f.hist = nil
	f.mu.Unlock()
}

// keys returns what is stored under the prefix.
func (f *fake) keys(prefix string) map[string]string {
	f.mu.Lock()
	defer f.mu.Unlock()
	m := map[string]string{}
	for k, kv := range f.kv {
		if strings.HasPrefix(k, prefix) {
			m[k] = string(kv.Value)
		}
	}
	return m
}

// holder returns the lease of a key and how often it was kept alive.
func (f *fake) holder(key string) (id int64, alive int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if kv := f.kv[key]; kv != nil {
		if l := f.leases[kv.Lease]; l != nil {
			return kv.Lease, l.alive
		}
	}
	return 0, 0
}

func within(key string, from, end []byte) bool {
	switch {
	case len(end) == 0:
		return key == string(from)
	case len(end) == 1 && end[0] == 0:
		return key >= string(from)
	}
	return key >= string(from) && key < string(end)
}

func (f *fake) list(r *pb.RangeRequest) *pb.RangeResponse {
	res := &pb.RangeResponse{Header: f.hdr()}
	for k, kv := range f.kv {
		if within(k, r.Key, r.RangeEnd) && (r.MaxCreateRevision == 0 || kv.CreateRevision <= r.MaxCreateRevision) &&
			(r.MinCreateRevision == 0 || kv.CreateRevision >= r.MinCreateRevision) &&
			(r.MaxModRevision == 0 || kv.ModRevision <= r.MaxModRevision) && (r.MinModRevision == 0 || kv.ModRevision >= r.MinModRevision) {
			c := *kv
			if r.KeysOnly {
				c.Value = nil
			}
			res.Kvs = append(res.Kvs, &c)
		}
	}
	sort.Slice(res.Kvs, func(i, j int) bool {
		a, b := res.Kvs[i], res.Kvs[j]
		if r.SortOrder == pb.RangeRequest_DESCEND {
			a, b = b, a
		}
		switch r.SortTarget {
		case pb.RangeRequest_CREATE:
			return a.CreateRevision < b.CreateRevision
		case pb.RangeRequest_MOD:
			return a.ModRevision < b.ModRevision
		case pb.RangeRequest_VALUE:
			return string(a.Value) < string(b.Value)
		case pb.RangeRequest_VERSION:
			return a.Version < b.Version
		}
		return string(a.Key) < string(b.Key)
	})
	res.Count = int64(len(res.Kvs))
	if r.Limit > 0 && int64(len(res.Kvs)) > r.Limit {
		res.Kvs, res.More = res.Kvs[:r.Limit], true
	}
	if r.CountOnly {
		res.Kvs = nil
	}
	return res
}

func (f *fake) Range(_ context.Context, r *pb.RangeRequest) (*pb.RangeResponse, error) {
	what := "get"
	if len(r.RangeEnd) > 0 && !strings.HasPrefix(string(r.Key), "_arpc") {
		what = "list"
	}
	if err := f.gate(what); err != nil {
		return nil, err
	}
	f.mu.Lock()
	res := f.list(r)
	hook := f.onList
	if what == "list" {
		f.onList = nil
	}
	f.mu.Unlock()
	if what == "list" && hook != nil {
		hook()
	}
	return res, nil
}

func (f *fake) Put(_ context.Context, r *pb.PutRequest) (*pb.PutResponse, error) {
	if err := f.gate("put"); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if err := f.put(string(r.Key), string(r.Value), r.Lease); err != nil {
		return nil, err
	}
	return &pb.PutResponse{Header: f.hdr()}, nil
}

func (f *fake) DeleteRange(_ context.Context, r *pb.DeleteRangeRequest) (*pb.DeleteRangeResponse, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	var ks []string
	for k := range f.kv {
		if within(k, r.Key, r.RangeEnd) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	f.del(ks)
	return &pb.DeleteRangeResponse{Header: f.hdr(), Deleted: int64(len(ks))}, nil
}

func (f *fake) holds(c *pb.Compare) bool {
	var kv mvccpb.KeyValue
	if x := f.kv[string(c.Key)]; x != nil {
		kv = *x
	}
	var d int64
	switch c.Target {
	case pb.Compare_CREATE:
		d = kv.CreateRevision - c.GetCreateRevision()
	case pb.Compare_MOD:
		d = kv.ModRevision - c.GetModRevision()
	case pb.Compare_VERSION:
		d = kv.Version - c.GetVersion()
	case pb.Compare_LEASE:
		d = kv.Lease - c.GetLease()
	case pb.Compare_VALUE:
		d = int64(strings.Compare(string(kv.Value), string(c.GetValue())))
	}
	switch c.Result {
	case pb.Compare_EQUAL:
		return d == 0
	case pb.Compare_NOT_EQUAL:
		return d != 0
	case pb.Compare_GREATER:
		return d > 0
	}
	return d < 0
}

func (f *fake) Txn(_ context.Context, r *pb.TxnRequest) (*pb.TxnResponse, error) {
	lock := false
	for _, c := range r.Compare {
		lock = lock || strings.HasPrefix(string(c.Key), "_arpc")
	}
	what := "txn"
	if lock {
		what = "lock"
	}
	if err := f.gate(what); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	ok := true
	for _, c := range r.Compare {
		ok = ok && f.holds(c)
	}
	ops := r.Success
	if !ok {
		ops = r.Failure
	}
	res := &pb.TxnResponse{Succeeded: ok}
	for _, o := range ops {
		switch x := o.Request.(type) {
		case *pb.RequestOp_RequestRange:
			res.Responses = append(res.Responses, &pb.ResponseOp{Response: &pb.ResponseOp_ResponseRange{ResponseRange: f.list(x.RequestRange)}})
		case *pb.RequestOp_RequestPut:
			if err := f.put(string(x.RequestPut.Key), string(x.RequestPut.Value), x.RequestPut.Lease); err != nil {
				return nil, err
			}
			res.Responses = append(res.Responses, &pb.ResponseOp{Response: &pb.ResponseOp_ResponsePut{ResponsePut: &pb.PutResponse{Header: f.hdr()}}})
		case *pb.RequestOp_RequestDeleteRange:
			f.del([]string{string(x.RequestDeleteRange.Key)})
			res.Responses = append(res.Responses, &pb.ResponseOp{Response: &pb.ResponseOp_ResponseDeleteRange{ResponseDeleteRange: &pb.DeleteRangeResponse{Header: f.hdr()}}})
		}
	}
	res.Header = f.hdr()
	return res, nil
}

func (f *fake) LeaseGrant(_ context.Context, r *pb.LeaseGrantRequest) (*pb.LeaseGrantResponse, error) {
	if err := f.gate("grant"); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	id := r.ID
	if id == 0 {
		f.nlease++
		id = f.nlease
	}
	f.leases[id] = &lease{ttl: r.TTL, keys: map[string]bool{}}
	return &pb.LeaseGrantResponse{Header: f.hdr(), ID: id, TTL: r.TTL}, nil
}

func (f *fake) LeaseRevoke(_ context.Context, r *pb.LeaseRevokeRequest) (*pb.LeaseRevokeResponse, error) {
	if err := f.gate("revoke"); err != nil {
		return nil, err
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if !f.endLease(r.ID) {
		return nil, rpctypes.ErrGRPCLeaseNotFound
	}
	return &pb.LeaseRevokeResponse{Header: f.hdr()}, nil
}

func (f *fake) LeaseKeepAlive(s pb.Lease_LeaseKeepAliveServer) error {
	for {
		r, err := s.Recv()
		if err != nil {
			return nil
		}
		f.mu.Lock()
		res := &pb.LeaseKeepAliveResponse{Header: f.hdr(), ID: r.ID}
		if l := f.leases[r.ID]; l != nil {
			l.alive++
			res.TTL = l.ttl
		}
		f.mu.Unlock()
		if err := s.Send(res); err != nil {
			return nil
		}
	}
}

func (f *fake) Watch(s pb.Watch_WatchServer) error {
	ctx, cancel := context.WithCancel(s.Context())
	defer cancel()
	var smu sync.Mutex
	send := func(r *pb.WatchResponse) {
		smu.Lock()
		defer smu.Unlock()
		s.Send(r)
	}
	next := int64(0)
	stops := map[int64]context.CancelFunc{}
	for {
		r, err := s.Recv()
		if err != nil {
			return nil
		}
		switch x := r.RequestUnion.(type) {
		case *pb.WatchRequest_CreateRequest:
			c := x.CreateRequest
			id := next
			next++
			f.mu.Lock()
			from := c.StartRevision
			if from == 0 {
				from = f.rev + 1
			}
			h := f.hdr()
			compacted := int64(0)
			if c.StartRevision != 0 && from <= f.compact {
				compacted = f.compact
			}
			f.mu.Unlock()
			send(&pb.WatchResponse{Header: h, WatchId: id, Created: true})
			if compacted > 0 {
				send(&pb.WatchResponse{Header: h, WatchId: id, Canceled: true, CompactRevision: compacted})
				continue
			}
			wctx, stop := context.WithCancel(ctx)
			stops[id] = stop
			go f.feed(wctx, c, id, from, send)
		case *pb.WatchRequest_CancelRequest:
			id := x.CancelRequest.WatchId
			if stop := stops[id]; stop != nil {
				stop()
				delete(stops, id)
				f.mu.Lock()
				h := f.hdr()
				f.mu.Unlock()
				send(&pb.WatchResponse{Header: h, WatchId: id, Canceled: true})
			}
		}
	}
}

// feed delivers the events from a revision on, those of a revision together.
func (f *fake) feed(ctx context.Context, c *pb.WatchCreateRequest, id, from int64, send func(*pb.WatchResponse)) {
	for {
		f.mu.Lock()
		if f.compact >= from {
			// too slow; as etcd does when what comes next is gone
			h := f.hdr()
			k := f.compact
			gone := false
			if f.rev >= from && k >= from {
				gone = true
			}
			f.mu.Unlock()
			if gone {
				send(&pb.WatchResponse{Header: h, WatchId: id, Canceled: true, CompactRevision: k})
				return
			}
			f.mu.Lock()
		}
		var evs []*mvccpb.Event
		for _, e := range f.hist {
			if e.Kv.ModRevision >= from && within(string(e.Kv.Key), c.Key, c.RangeEnd) {
				evs = append(evs, e)
			}
		}
		h := f.hdr()
		from = f.rev + 1
		w := f.wake
		f.mu.Unlock()
		if len(evs) > 0 {
			send(&pb.WatchResponse{Header: h, WatchId: id, Events: evs})
			f.mu.Lock()
			for _, e := range evs {
				f.sent[e.Kv.ModRevision]++
			}
			f.mu.Unlock()
		}
		select {
		case <-w:
		case <-ctx.Done():
			return
		}
	}
}

// delivered waits until the latest change was sent to a watcher of it (or d has
// passed) and a little longer, for it to be handled.
func (f *fake) delivered(d time.Duration) {
	end := time.Now().Add(d)
	for {
		f.mu.Lock()
		ok := f.sent[f.rev] > 0
		f.mu.Unlock()
		if ok || time.Now().After(end) {
			break
		}
		time.Sleep(200 * time.Microsecond)
	}
	time.Sleep(5 * time.Millisecond)
}
