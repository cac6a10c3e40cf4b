// Runs the JavaScript client against a scripted peer: fake WebSocket, fake
// XMLHttpRequest, virtual clock. One case (JSON) per input line, one trace
// (JSON) per output line.
'use strict';
const fs = require('fs');
const src = fs.readFileSync(process.argv[2], 'utf8');
const names = ['window', 'WebSocket', 'XMLHttpRequest', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'console', 'Date'];
const load = new Function(...names, src + '\nreturn ArpcClient;');

class Clock {
    constructor() { this.now = 0; this.q = []; this.id = 1; }
    add(f, d, every, args) {
        d = +d || 0;
        const e = { id: this.id++, at: this.now + Math.max(0, d), f, every: every ? Math.max(1, d) : 0, args };
        this.q.push(e);
        return e.id;
    }
    del(id) { this.q = this.q.filter(e => e.id !== id); }
    // the next event due at or before t
    next(t) {
        let best = null;
        for (const e of this.q) if (e.at <= t && (!best || e.at < best.at || (e.at === best.at && e.id < best.id))) best = e;
        return best;
    }
}

async function flush() { for (let i = 0; i < 12; i++) await null; }

function hex(b) { return Buffer.from(b).toString('hex'); }
function unhex(s) { const b = Buffer.from(s, 'hex'); return new Uint8Array(b).buffer.slice(0, b.length); }

async function runCase(c) {
    const trace = [];
    const clock = new Clock();
    const ev = (o) => { o.t = clock.now; trace.push(o); };
    const sockets = [], xhrs = [];
    const sent = {}; // call index -> frame bytes
    let current = -1; // the call being made

    class FakeWebSocket {
        constructor(url) {
            this.url = url; this.readyState = 0; this.n = sockets.length; this.binaryType = 'blob'; sockets.push(this);
        }
        send(data) {
            if (this.readyState === 0) throw new Error('InvalidStateError: still in CONNECTING state');
            const b = new Uint8Array(data.buffer ? data.buffer.slice(data.byteOffset, data.byteOffset + data.byteLength) : data);
            if (this.readyState !== 1) return;
            if (current >= 0) { sent[current] = b; }
            ev({ e: 'tx', hex: hex(b), ws: this.n, call: current });
        }
        close() {
            if (this.readyState >= 2) return;
            this.readyState = 2;
            clock.add(() => this.fire(), 0);
        }
        fire() {
            if (this.readyState === 3) return;
            this.readyState = 3;
            ev({ e: 'closed' });
            if (this.onclose) this.onclose({});
        }
    }
    FakeWebSocket.CONNECTING = 0; FakeWebSocket.OPEN = 1; FakeWebSocket.CLOSING = 2; FakeWebSocket.CLOSED = 3;
    class FakeXHR {
        constructor() { this.readyState = 0; this.status = 0; this.responseType = ''; this.call = current; }
        open(m, u) { this.m = m; this.u = u; this.readyState = 1; }
        setRequestHeader() { }
        send(data) {
            const b = new Uint8Array(data);
            if (current >= 0) { sent[current] = b; xhrs[current] = this; }
            ev({ e: 'http', hex: hex(b), m: this.m, u: this.u, call: current });
        }
        done(status, body) {
            this.status = status;
            if (this.responseType === 'arraybuffer') this.response = body;
            else this.response = this.responseText = new TextDecoder('utf-8').decode(body);
            this.readyState = 4;
            if (status === 0 && this.onerror) this.onerror({});
            if (this.onreadystatechange) this.onreadystatechange({});
            if (status !== 0 && this.onload) this.onload({});
        }
    }
    const quiet = { log() { }, error() { }, warn() { }, info() { }, debug() { } };
    const FakeDate = class extends Date { static now() { return clock.now; } };
    const win = { WebSocket: FakeWebSocket, XMLHttpRequest: FakeXHR };
    const ArpcClient = load(win, FakeWebSocket, FakeXHR,
        (f, d, ...a) => clock.add(f, d, false, a), (id) => clock.del(id),
        (f, d, ...a) => clock.add(f, d, true, a), (id) => clock.del(id), quiet, FakeDate);
    const cli = new ArpcClient('ws://fake', undefined, '/rpc', 'POST');
    if (c.Seq) cli.seqNum = c.Seq;
    for (const m of c.Handlers || []) {
        cli.handle(m, (ctx) => {
            ev({ e: 'h', m: ctx.method, want: m, data: ctx.data === undefined ? null : ctx.data });
            if (c.Boom === m) throw new Error('of the handler');
        });
    }
    const advance = async (to) => {
        for (let e; (e = clock.next(to));) {
            clock.now = Math.max(clock.now, e.at);
            if (e.every) e.at += e.every; else clock.del(e.id);
            try { e.f(...(e.args || [])); } catch (x) { ev({ e: 'throw', where: 'timer', msg: String(x) }); }
            await flush();
        }
        clock.now = to;
    };
    const build = (f) => {
        const b = new Uint8Array(unhex(f.Hex));
        if (f.K === 'rsp') {
            const s = sent[f.Call];
            if (!s) return null;
            for (let i = 8; i < 16; i++) b[i] = s[i];
        }
        return b;
    };
    const concat = (bs) => {
        const n = bs.reduce((a, b) => a + b.length, 0);
        const out = new Uint8Array(n);
        let o = 0;
        for (const b of bs) { out.set(b, o); o += b.length; }
        return out.buffer;
    };
    let ncall = 0;
    c.Ops = c.Ops || [];
    for (let i = 0; i < c.Ops.length; i++) {
        const o = c.Ops[i];
        if (o.D) await advance(clock.now + o.D);
        const ws = sockets[sockets.length - 1];
        try {
            switch (o.K) {
                case 'open':
                    if (ws.readyState === 0) { ws.readyState = 1; ev({ e: 'opened' }); ws.onopen({}); }
                    break;
                case 'closing': // the closing handshake has begun
                    if (ws.readyState < 2) { ws.readyState = 2; ev({ e: 'closing' }); clock.add(() => ws.fire(), 50); }
                    break;
                case 'close':
                    ws.fire();
                    break;
                case 'call': case 'callHttp': {
                    const k = ncall++;
                    current = k;
                    ev({ e: 'call', k });
                    let done = (r) => ev({ e: 'res', k, data: r.data === undefined ? null : r.data, err: r.err === undefined ? null : r.err });
                    let p;
                    const arg = o.Undef ? undefined : JSON.parse(o.Arg);
                    try { p = cli[o.K](o.M, arg, o.T, o.Cb ? done : undefined); } finally { current = -1; }
                    if (!o.Cb && p) p.then(done);
                    break;
                }
                case 'notify': case 'notifyHttp': {
                    const r = cli[o.K](o.M, o.Undef ? undefined : JSON.parse(o.Arg));
                    ev({ e: 'ret', op: i, v: r === undefined ? null : r });
                    break;
                }
                case 'ping': cli.ping(); break;
                case 'keepalive': cli.keepalive(o.T); break;
                case 'shutdown': ev({ e: 'shutdown' }); cli.shutdown(); break;
                case 'rx': {
                    if (ws.readyState !== 1) break;
                    const bs = [];
                    const used = [];
                    o.F.forEach((f, j) => { const b = build(f); if (b) { bs.push(b); used.push(j); } });
                    ev({ e: 'rx', op: i, used });
                    if (bs.length) ws.onmessage({ data: concat(bs) });
                    break;
                }
                case 'httprsp': {
                    const x = xhrs[o.Call];
                    if (!x || x.readyState === 4) break;
                    const b = o.F && o.F.length ? build(o.F[0]) : new Uint8Array(0);
                    ev({ e: 'httprsp', op: i });
                    x.done(o.T, concat([b]));
                    break;
                }
            }
        } catch (x) {
            ev({ e: 'throw', where: o.K, msg: String(x && x.stack || x) });
        }
        await flush();
    }
    await advance(clock.now + c.Tail);
    for (const ws of sockets.slice()) if (ws.readyState === 2) ws.fire();
    await flush();
    return { trace, sockets: sockets.length };
}

process.stdin.setEncoding('utf8');
let buf = '';
let busy = Promise.resolve();
process.stdin.on('data', (d) => {
    buf += d;
    for (let i; (i = buf.indexOf('\n')) >= 0;) {
        const line = buf.slice(0, i);
        buf = buf.slice(i + 1);
        busy = busy.then(async () => {
            let out;
            try { out = await runCase(JSON.parse(line)); } catch (e) { out = { fatal: String(e && e.stack || e) }; }
            process.stdout.write(JSON.stringify(out) + '\n');
        });
    }
});
process.stdin.on('end', () => process.exit(0));
process.on('unhandledRejection', () => { });
