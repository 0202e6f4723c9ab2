//! The tunnelling link: C18 acknowledgements, C19 sequence numbers, C23 establishment, C24 heartbeat,
//! C25 disconnect, C26 reconnect, C27 malformed datagrams, C32 backlog.
use crate::net::*;
use crate::sym;
use crate::util::*;

fn any_cemi(max: usize) -> Vec<u8> { let n = sym::len(max); sym::bytes(n) }

// ---------------------------------------------------------------- C18
/// An arbitrary history of well-formed and other datagrams: each tunnelling request or feature response
/// gets exactly one acknowledgement carrying its channel and sequence number, nothing else gets one.
#[no_mangle]
pub extern "C" fn h_c18_history() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let _w = Who::connected(monitor, &c);
    let mut i = 0;
    while i < sym::tier(2, 3) {
        let (ch, seq, st) = (sym::u8(), sym::u8(), sym::u8());
        let k = sym::split(sym::below(7) as u64);
        let d = match k {
            0 => tunnel(ch, seq, &any_cemi(3)),
            1 => { let d = sym::u16(); tunnel(ch, seq, &ldata(IND, 0xbc, st as u16, d, 2, &[st, st])) }
            2 => feature_resp(ch, seq),
            3 => vec![6, 0x10, 4, 0x21, 0, 10, 4, ch, seq, st],
            4 => state_resp(ch, 0),
            5 => { let d = sym::u16(); tunnel(ch, seq, &ldata(CON, st, 0, d, 2, &[])) }
            _ => { let s = sym::u16(); sym::assume(s != 0x0420 && s != 0x0421 && s != 0x0423 && s != 0x0206 && !(s >= 0x0208 && s <= 0x020a)); vec![6, 0x10, (s >> 8) as u8, s as u8, 0, 10, 4, ch, seq, 0] }
        };
        deliver(0, d);
        settle();
        let s = taken();
        let want = (k <= 2 || k == 5) as usize;
        sym::check(s.len() == want, "one acknowledgement for a tunnelling request or feature response, none otherwise");
        if want == 1 && s.len() == 1 { sym::check(eq(&s[0], &ack(ch, seq)), "the acknowledgement mirrors channel and sequence number, status 0"); }
        i += 1;
    }
    sym::reach("history");
}
/// What makes a datagram a tunnelling request / feature response.
pub fn is_tunnel(d: &[u8]) -> bool { d.len() >= 10 && d[0] == 6 && d[1] == 0x10 && d[2] == 4 && d[3] == 0x20 && be16(d, 4) >= 10 && be16(d, 4) as usize <= d.len() && d[6] == 4 }
pub fn is_feature(d: &[u8]) -> bool { d.len() >= 13 && d[0] == 6 && d[1] == 0x10 && d[2] == 4 && d[3] == 0x23 && be16(d, 4) == 13 && d[6] == 4 && (d[10] == 2 || d[10] >= 6 && d[10] <= 8) }
/// Arbitrary octets as a datagram: acknowledged exactly when they are a tunnelling request or feature response.
#[no_mangle]
pub extern "C" fn h_c18_any() {
    let k = sym::case(4);
    let c = Conn::any();
    let _w = Who::connected(k & 1 == 1, &c);
    let b = Buf::any(sym::tier(18, 28));
    let d = b.get();
    // the services handled below; every other one is in h_c18_other
    if k < 2 { sym::assume(d.len() >= 4 && d[2] == 4 && d[3] == 0x20); } else { sym::assume(d.len() >= 4 && d[2] == 4 && d[3] == 0x23); }
    let ok = if k < 2 { is_tunnel(d) } else { is_feature(d) };
    deliver(0, d.to_vec());
    settle();
    let s = taken();
    sym::check(s.len() == ok as usize, "acknowledged exactly when well-formed");
    if ok && s.len() == 1 { sym::check(eq(&s[0], &ack(d[7], d[8])), "the acknowledgement mirrors channel and sequence number, status 0"); sym::reach("acknowledged"); } else { sym::reach("not acknowledged"); }
}
#[no_mangle]
pub extern "C" fn h_c18_other() {
    let k = sym::case(2);
    let c = Conn::any();
    let _w = Who::connected(k & 1 == 1, &c);
    let b = Buf::any(sym::tier(18, 28));
    let d = b.get();
    sym::assume(!(d.len() >= 4 && d[2] == 4 && (d[3] == 0x20 || d[3] == 0x23)));
    deliver(0, d.to_vec());
    settle();
    let s = taken();
    sym::check(count(&s, 0x0421) == 0, "nothing else is acknowledged");
    sym::reach("other");
}
/// Up to the largest datagram: acknowledged when complete, not when cut.
#[no_mangle]
pub extern "C" fn h_c18_long() {
    let k = sym::case(2);
    let c = Conn::any();
    let _w = Who::connected(k == 1, &c);
    let n = sym::pick(&[40, 64, 100, 101, 128, 254, 255, 256, 257, 300, 511, 512]);
    let total = match sym::split(sym::below(3) as u64) { 0 => n, 1 => n + 1, _ => n / 2 };
    let (ch, seq) = (sym::u8(), sym::u8());
    let mut d = vec![0u8; n];
    d[..10].copy_from_slice(&[6, 0x10, 4, 0x20, (total >> 8) as u8, total as u8, 4, ch, seq, 0]);
    d[10] = sym::u8();
    d[n - 1] = sym::u8();
    deliver(0, d);
    settle();
    let s = taken();
    if total > n { sym::check(s.is_empty(), "a truncated request is not acknowledged"); sym::reach("cut"); }
    else { sym::check(s.len() == 1 && eq(&s[0], &ack(ch, seq)), "a long request is acknowledged"); sym::reach("long"); }
}
/// Whatever operation is under way, however many messages are unread, and after a reconnect.
#[no_mangle]
pub extern "C" fn h_c18_pending() {
    let k = sym::case(8);
    let mut c = Conn::any();
    let w = Who::connected(k >= 5, &c);
    if sym::split(sym::bool() as u64) == 1 {
        deliver(0, tunnel(c.ch, 9, &[0x11, 0]));
        deliver(0, disc_req(&c));
        settle();
        c = Conn::any();
        deliver(0, c.response(0));
        settle();
        sym::reach("reconnected");
    }
    taken();
    let g = sym::u16();
    let a = KnxAddress::group_1_level(7);
    let mut f: Op<()> = match k {
        0 => op(async { let _ = w.client().read_group_address_value(a).await; }),
        1 => op(async { let _ = w.client().write_group_address_value(a, vec![1], true).await; }),
        2 => op(async { let _ = w.client().get_connection_status().await; }),
        3 => op(async { let _ = w.client().disconnect().await; }),
        5 => op(async { let _ = w.monitor().next_msg().await; }),
        6 => op(async { let _ = w.monitor().disconnect().await; }),
        _ => op(std::future::pending()),
    };
    let mut done = drive(&mut f).is_some();
    taken();
    let mut i = 0;
    while i < 4 {
        let (ch, seq) = (sym::u8(), if i == 2 { 1 } else { i as u8 });
        deliver(0, match i { 0 => tunnel(ch, seq, &ldata(IND, 0xbc, 1, g, 2, &[1])), 1 => tunnel(ch, seq, &ldata(CON, 0xbc, 0, g, 2, &[1])), 2 => tunnel(ch, seq, &ldata(IND, 0xbc, 1, 8, 1, &[2])), _ => feature_resp(ch, seq) });
        if done { settle(); } else { done = drive(&mut f).is_some(); }
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &ack(ch, seq)), "acknowledged, whatever is under way");
        i += 1;
    }
    sym::reach("pending");
}
/// However the heartbeat and the handling of a request interleave.
#[no_mangle]
pub extern "C" fn h_c18_interleaved() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(k == 1, &c);
    world().sym_select = true;
    world().preempt = sym::tier(2, 3);
    let (ch, seq) = (sym::u8(), sym::u8());
    world().now += 60_000;
    deliver(0, tunnel(ch, seq, &ldata(IND, 0xbc, 1, 2, 2, &[1])));
    let mut i = 0;
    while i < 6 { tokio::task::run(0); i += 1; }
    settle();
    let s = taken();
    let q = of(&s, 0x0421);
    sym::check(q.len() == 1 && eq(q[0], &ack(ch, seq)), "acknowledged once, whatever is handled at the same time");
    sym::check(count(&s, 0x0207) == 1, "and the heartbeat is sent");
    if world().preempted > 0 { sym::reach("preempted"); }
    sym::reach("interleaved");
    drop(w);
}

// ---------------------------------------------------------------- C19
/// Requests of one connection are numbered 0, 1, 2, ... and carry its channel, whatever happens to each;
/// a new connection starts over with its own channel.
#[no_mangle]
pub extern "C" fn h_c19_history() {
    let k = sym::case(8);
    let mut c = Conn::any();
    let w = Who::connected(k & 1 == 1, &c);
    let mut seq = w.seq0();
    let mut i = 0;
    while i < sym::tier(3, 4) {
        let (a, g) = group();
        let v = sym::bytes(2);
        // reads, writes, or both in turn
        let read = [false, true, i & 1 == 0, i & 1 == 1][k >> 1];
        let fail = sym::split(sym::bool() as u64) == 1;
        {
            let mut f = if read { w.ask(a) } else { w.write(a, v.clone(), false) };
            world().send_fail = fail as usize;
            let r = drive(&mut f);
            let s = taken();
            let q = of(&s, 0x0420);
            if fail {
                sym::check(r == Some(false) && s.is_empty(), "a request that cannot be sent fails");
                sym::reach("not sent");
            } else {
                sym::check(q.len() == 1 && is_request(q[0], c.ch, seq, g, if read { 0 } else { 2 }, if read { &[] } else { &v }, read), "request numbered after the previous one, on the channel of the connection");
                seq = seq.wrapping_add(1);
            }
            if r.is_none() {
                match sym::split(sym::below(4) as u64) {
                    0 => { let e = sym::u8(); deliver(0, tunnel(c.ch, i as u8, &ldata(CON, e, 0, g, 2, &v))); }
                    1 => { deliver(0, tunnel(c.ch, i as u8, &ldata(IND, 0xbc, 0, g, 1, &v))); }
                    // the caller loses patience
                    2 => { drop(f); f = op(async { false }); sym::reach("abandoned"); }
                    _ => {}
                }
                if drive(&mut f).is_none() {
                    world().now += 10_000;
                    sym::check(drive(&mut f).is_some(), "an operation ends within ten seconds");
                }
            }
        }
        taken();
        // the gateway may end the connection in between
        if sym::split(sym::bool() as u64) == 1 {
            deliver(0, disc_req(&c));
            settle();
            c = Conn::any();
            taken();
            deliver(0, c.response(0));
            settle();
            let s = taken();
            let q = of(&s, 0x0424);
            if k & 1 == 1 { sym::check(q.len() == 1 && q[0].len() == 13 && q[0][7] == c.ch && q[0][8] == 0, "the set-up request of the new connection is number 0 on its channel"); }
            seq = w.seq0();
            sym::reach("new connection");
        }
        i += 1;
    }
    sym::reach("history");
}
/// A request given up at any point takes a number exactly when it was sent.
#[no_mangle]
pub extern "C" fn h_c19_given_up() {
    let k = sym::case(4);
    let c = Conn::any();
    let w = Who::connected(k & 1 == 1, &c);
    let mut seq = w.seq0();
    let mut i = 0;
    while i < sym::tier(2, 3) {
        let mut f = if k & 2 != 0 { w.ask(KnxAddress::group_1_level(7)) } else { w.write(KnxAddress::group_1_level(7), vec![1], true) };
        world().preempt = sym::tier(1, 2);
        let n = sym::range(1, 3);
        let mut j = 0;
        while j < n && poll(f.as_mut()).is_pending() { j += 1; }
        world().preempt = 0;
        drop(f);
        settle();
        let s = taken();
        if s.is_empty() { sym::reach("given up before it was sent"); } else {
            sym::check(s.len() == 1 && is_request(&s[0], c.ch, seq, 7, if k & 2 != 0 { 0 } else { 2 }, &[1][..(k & 2 == 0) as usize], true), "request numbered after the previous one, on the channel of the connection");
            seq = seq.wrapping_add(1);
            sym::reach("given up after it was sent");
        }
        i += 1;
    }
    {
        let mut f = w.write(KnxAddress::group_1_level(9), vec![2], true);
        drive(&mut f);
        let s = taken();
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, seq, 9, 2, &[2], true), "a request that was not sent takes no number");
    }
    sym::reach("given up");
}
/// Nothing but requests takes a number.
#[no_mangle]
pub extern "C" fn h_c19_between() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(k == 1, &c);
    let mut seq = w.seq0();
    let mut i = 0;
    while i < 3 {
        {
            let mut f = w.write(KnxAddress::group_1_level(7), vec![1], true);
            drive(&mut f);
            let s = taken();
            let q = of(&s, 0x0420);
            sym::check(q.len() == 1 && is_request(q[0], c.ch, seq, 7, 2, &[1], true), "request numbered after the previous one, on the channel of the connection");
            seq = seq.wrapping_add(1);
            if k == 0 { deliver(0, tunnel(c.ch, i as u8, &ldata(CON, 0xbc, 0, 7, 2, &[]))); drive(&mut f); }
        }
        let (x, y) = (sym::u8(), sym::u8());
        if i < 2 {
            match sym::split(sym::below(8) as u64) {
                0 => { deliver(0, tunnel(x, y, &ldata(IND, 0xbc, 1, 2, 2, &[3]))); settle(); }
                1 => { deliver(0, vec![6, 0x10, 4, 0x21, 0, 10, 4, x, y, sym::u8()]); settle(); }
                2 => { deliver(0, feature_resp(x, y)); settle(); }
                3 => { deliver(0, state_resp(x, 0)); settle(); }
                4 => wait(60_000),
                5 => { let mut f = w.write(KnxAddress::group_1_level(7), vec![1; 254], false); sym::check(drive(&mut f) == Some(false), "refused"); }
                6 => {
                    let mut f = w.disconnect();
                    drive(&mut f);
                    world().now += 10_000;
                    sym::check(matches!(drive(&mut f), Some(Err(_))), "unanswered");
                }
                _ => if let Who::C(cl) = &w {
                    let mut f = op(cl.get_connection_status());
                    drive(&mut f);
                    deliver(0, state_resp(c.ch, 0));
                    sym::check(matches!(drive(&mut f), Some(Ok(_))), "status");
                }
            }
        }
        taken();
        i += 1;
    }
    sym::reach("between");
}
/// The numbers wrap after 255.
#[no_mangle]
pub extern "C" fn h_c19_wrap() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let mut seq = w.seq0();
    let mut i = 0;
    while i < 258 {
        {
            let mut f = w.ask(KnxAddress::group_1_level(7));
            drive(&mut f);
            let s = taken();
            let q = of(&s, 0x0420);
            sym::check(q.len() == 1 && q[0].len() > 8 && q[0][7] == c.ch && q[0][8] == seq, "request number follows modulo 256");
            if !monitor { deliver(0, tunnel(c.ch, i as u8, &ldata(IND, 0xbc, 0, 7, 1, &[1]))); drive(&mut f); }
        }
        taken();
        seq = seq.wrapping_add(1);
        i += 1;
    }
    sym::reach("wrapped");
}

// ---------------------------------------------------------------- C23
fn not_usable(w: &Who, m: &str) {
    let mut f = w.write(KnxAddress::group_1_level(1), vec![1, 2], false);
    let r = drive(&mut f);
    sym::check(r == Some(false), m);
    let s = taken();
    sym::check(count(&s, 0x0420) == 0, "nothing is tunnelled without a connection");
}
fn usable(w: &Who, c: &Conn, seq: u8) {
    let (a, g) = group();
    let v = sym::bytes(2);
    taken();
    let mut f = w.write(a, v.clone(), false);
    drive(&mut f);
    let s = taken();
    let q = of(&s, 0x0420);
    sym::check(q.len() == 1 && is_request(q[0], c.ch, seq, g, 2, &v, false), "requests are sent on the established channel");
    if let Who::M(m) = w { sym::check(now(m.is_connected()), "the monitor reports the connection"); }
}
/// Any other datagram before the connection response.
#[no_mangle]
pub extern "C" fn h_c23_stray() {
    let k = sym::case(4);
    let mut c = Conn::any();
    let w = if k & 2 == 0 { Who::new(k & 1 == 1) } else {
        let w = Who::connected(k & 1 == 1, &c);
        deliver(0, disc_req(&c));
        settle();
        c = Conn::any();
        w
    };
    taken();
    let b = Buf::any(sym::tier(14, 30));
    let d = b.get().to_vec();
    sym::assume(!(d.len() >= 4 && d[2] == 2 && d[3] == 6));
    deliver(0, d);
    settle();
    sym::check(taken().is_empty(), "not answered");
    { let mut f = w.write(KnxAddress::group_1_level(7), vec![1], true); sym::check(drive(&mut f) == Some(false) && taken().is_empty(), "requests fail and nothing is tunnelled"); }
    if sym::bool() { wait(29_000); sym::check(taken().is_empty(), "waits for the response"); }
    deliver(0, c.response(0));
    settle();
    usable(&w, &c, w.seq0());
    sym::reach("stray");
}
/// What can happen to a connection attempt.
#[no_mangle]
pub extern "C" fn h_c23_attempts() {
    let k = sym::case(2);
    let w = Who::new(k == 1);
    let mut tries = 0;
    loop {
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &CONNECT), "one connection request per attempt");
        if let Who::M(m) = &w { sym::check(!now(m.is_connected()), "not connected before the response"); }
        if tries == 0 { not_usable(&w, "requests fail before the connection is established"); }
        // a datagram left over from something else, some time after the request
        let mut t = 0u64;
        if sym::split(sym::bool() as u64) == 1 {
            t = sym::pick(&[0, 7_000, 29_000]) as u64;
            wait(t);
            let d = [tunnel(sym::u8(), sym::u8(), &[0x29, 0]), disc_resp(sym::u8(), 0), vec![], vec![6, 0x10]][sym::split(sym::below(4) as u64) as usize].clone();
            deliver(0, d);
            settle();
            sym::check(taken().is_empty(), "other datagrams do not answer a connection request");
            sym::reach("stray datagram");
        }
        if tries == sym::tier(1, 2) { break; }
        match sym::split(sym::below(3) as u64) {
            0 => {
                let st = sym::u8();
                sym::assume(st != 0);
                let c = Conn::any();
                deliver(0, c.response(st));
                settle();
                wait(9_999);
                sym::check(taken().is_empty(), "ten seconds between attempts");
                wait(1);
                sym::reach("refused");
            }
            1 => {
                wait(29_999 - t);
                sym::check(taken().is_empty(), "thirty seconds to answer");
                wait(1);
                sym::check(taken().is_empty(), "ten seconds between attempts");
                wait(9_999);
                sym::check(taken().is_empty(), "ten seconds between attempts");
                wait(1);
                sym::reach("no answer");
            }
            _ => { push(0, In::Error); settle(); wait(9_999); sym::check(taken().is_empty(), "ten seconds between attempts"); wait(1); sym::reach("socket error"); }
        }
        tries += 1;
    }
    // established at any time before the thirty seconds are over
    let c = Conn::any();
    if sym::split(sym::bool() as u64) == 1 { wait(970); sym::reach("late"); }
    deliver(0, c.response(0));
    settle();
    usable(&w, &c, w.seq0());
    sym::reach("established");
}
/// A response at any time: it counts up to thirty seconds after the request.
#[no_mangle]
pub extern "C" fn h_c23_when() {
    let monitor = sym::case(2) == 1;
    let w = Who::new(monitor);
    taken();
    let t = sym::u16();
    sym::assume(t < 30_000);
    world().now += t as u64;
    let c = Conn::any();
    let mut d = c.response(0);
    // up to the size of the receive buffer
    d.resize(sym::pick(&[20, 21, 60, 99, 100]), 0xee);
    deliver(0, d);
    settle();
    usable(&w, &c, w.seq0());
    // and nothing more is requested
    wait(50_000);
    sym::check(count(&taken(), 0x0205) == 0, "no other attempt after the connection is established");
    sym::reach("in time");
}
/// Attempts go on without limit, and never more often than every ten seconds.
#[no_mangle]
pub extern "C" fn h_c23_many() {
    let k = sym::case(8);
    let w = Who::new(k & 1 == 1);
    let st = sym::u8();
    sym::assume(st != 0);
    let mut i = 0;
    // a refusal names its status, which is symbolic in the first attempts
    let limit = if k >> 1 == 0 || k >> 1 == 3 { sym::tier(130, 300) } else { sym::tier(600, 1200) };
    let mut st = st;
    while i < limit {
        if i == 20 { st = 0x24; }
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &CONNECT), "one connection request per attempt");
        match k >> 1 {
            0 => { deliver(0, Conn { ch: 1, ep: [8, 1, 0, 0, 0, 0, 0, 0] }.response(st)); settle(); }
            1 => wait(30_000),
            2 => { push(0, In::Error); settle(); }
            _ => { deliver(0, vec![6, 0x10, 2, 6, 0, 8, 0, st]); settle(); }
        }
        wait(9_000);
        sym::check(taken().is_empty(), "ten seconds between attempts");
        wait(1_000);
        i += 1;
    }
    taken();
    let c = Conn::any();
    deliver(0, c.response(0));
    settle();
    usable(&w, &c, w.seq0());
    sym::reach("many");
}
/// An arbitrary datagram that claims to be a connection response.
#[no_mangle]
pub extern "C" fn h_c23_response() {
    let monitor = sym::case(2) == 1;
    let w = Who::new(monitor);
    taken();
    let mut b = Buf::any(22);
    b.v[0] = 6; b.v[1] = 0x10; b.v[2] = 2; b.v[3] = 6;
    let d = b.get().to_vec();
    let ok = d.len() >= 20 && be16(&d, 4) >= 8 && d[7] == 0 && d[8] == 8 && d[16] == 4 && d[17] == 4;
    deliver(0, d.clone());
    settle();
    if ok {
        let mut ep = [0u8; 8];
        ep.copy_from_slice(&d[8..16]);
        usable(&w, &Conn { ch: d[6], ep }, w.seq0());
        sym::reach("accepted");
    } else {
        not_usable(&w, "an error or incomplete response establishes nothing");
        taken();
        // next attempt: ten seconds after an invalid response; thirty more when it was no response at all
        wait(9_999);
        sym::check(taken().is_empty(), "ten seconds between attempts");
        wait(1);
        let mut s = taken();
        if d.len() < 4 { sym::check(s.is_empty(), "an incomplete header is no response"); wait(20_000); wait(9_999); sym::check(taken().is_empty(), "thirty seconds to answer"); wait(1); s = taken(); }
        sym::check(s.len() == 1 && eq(&s[0], &CONNECT), "the attempt is repeated");
        let c = Conn::any();
        deliver(0, c.response(0));
        settle();
        usable(&w, &c, w.seq0());
        sym::reach("rejected");
    }
}
/// Sending the request fails: tried again ten seconds later.
#[no_mangle]
pub extern "C" fn h_c23_send_failure() {
    let monitor = sym::case(2) == 1;
    let n = sym::range(1, 3);
    world().send_fail = n;
    let w = Who::new(monitor);
    sym::check(taken().is_empty(), "nothing sent");
    let mut i = 0;
    while i < n {
        wait(9_999);
        sym::check(taken().is_empty() && world().send_fail == n - i - 1, "ten seconds between attempts");
        wait(1);
        i += 1;
    }
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &CONNECT), "request repeated after ten seconds");
    let c = Conn::any();
    deliver(0, c.response(0));
    settle();
    usable(&w, &c, w.seq0());
    sym::reach("established");
}
/// Where the datagrams go.
#[no_mangle]
pub extern "C" fn h_c23_target() {
    let (ip, port) = (Ipv4Addr::new(sym::u8(), sym::u8(), sym::u8(), sym::u8()), sym::u16());
    let r = now(UdpClient::connect(SocketAddrV4::new(ip, port)));
    sym::check(r.is_ok(), "client is created");
    settle();
    let w = world();
    sym::check(w.sent.len() == 1 && w.sent[0].to.is_none() && w.peer[w.sent[0].sock] == Some((ip, port)), "the request goes to the address given");
    sym::reach("target");
}
/// The monitor is given its address as text.
#[no_mangle]
pub extern "C" fn h_c23_target_text() {
    let (t, ip, port) = [("192.0.2.1:3671", [192u8, 0, 2, 1], 3671u16), ("0.0.0.0:1", [0, 0, 0, 0], 1), ("255.254.253.252:65535", [255, 254, 253, 252], 65535)][sym::case(3)];
    let r = now(UdpMonitor::connect(t));
    sym::check(r.is_ok(), "monitor is created");
    settle();
    let w = world();
    sym::check(w.sent.len() == 1 && w.sent[0].to.is_none() && w.peer[w.sent[0].sock] == Some((Ipv4Addr::from(ip), port)), "the request goes to the address given");
    sym::reach("target");
}

// ---------------------------------------------------------------- C24
/// Heartbeats: at most 60 seconds apart, for the channel and endpoint of the connection, whatever traffic there is.
#[no_mangle]
pub extern "C" fn h_c24_period() {
    let k = sym::case(4);
    let (monitor, traffic) = (k & 1 == 1, k & 2 != 0);
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    world().sym_select = false;
    let start = world().now;
    let mut last = start;
    let mut beats = 0;
    let mut i = 0;
    let n = sym::tier(30, 120);
    while i < n {
        world().now += 10_000;
        if traffic {
            deliver(0, tunnel(c.ch, i as u8, &ldata(IND, 0xbc, 1, 2, 2, &[3])));
            if i % 3 == 0 { deliver(0, state_resp(c.ch, 0)); }
            if i % 7 == 0 { let mut f = w.write(KnxAddress::group_1_level(9), vec![1], true); drive(&mut f); }
        }
        settle();
        for s in world().sent.drain(..) {
            if service(&s.data) != 0x0207 { continue; }
            sym::check(eq(&s.data, &c.heartbeat()), "heartbeat carries channel and endpoint of the connection");
            sym::check(s.at - last <= 60_000, "at most 60 seconds between heartbeats");
            last = s.at;
            beats += 1;
        }
        i += 1;
    }
    let t = world().now - start;
    sym::check(world().now - last < 60_000, "at most 60 seconds between heartbeats");
    sym::check(beats >= t / 60_000 && beats <= t / 60_000 + 1, "one heartbeat per minute");
    sym::reach("minutes");
}
/// Arbitrary polling times: never more heartbeats than one per elapsed minute plus the first, none lost.
#[no_mangle]
pub extern "C" fn h_c24_times() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let _w = Who::connected(monitor, &c);
    let mut i = 0;
    while i < sym::tier(2, 4) {
        reselect();
        let d = sym::u32();
        sym::assume(d <= 200_000);
        world().now += d as u64;
        // a datagram arrives at the same moment
        if sym::bool() { deliver(0, tunnel(c.ch, i as u8, &ldata(IND, 0xbc, 1, 2, 2, &[3]))); }
        settle();
        let s = taken();
        let n = count(&s, 0x0207);
        for x in of(&s, 0x0207) { sym::check(eq(x, &c.heartbeat()), "heartbeat carries channel and endpoint of the connection"); }
        sym::check(n <= 1, "no burst of heartbeats");
        sym::check(n == 1 || d < 60_000, "a heartbeat when a minute has passed");
        i += 1;
    }
    sym::reach("times");
}
/// After a reconnect the heartbeats carry the new channel.
#[no_mangle]
pub extern "C" fn h_c24_reconnect() {
    let k = sym::case(6);
    let c = Conn::any();
    let _w = Who::connected(k & 1 == 1, &c);
    wait(sym::pick(&[0, 30_000, 59_999]) as u64);
    match k >> 1 { 0 => deliver(0, disc_req(&c)), 1 => push(0, In::Error), _ => { let st = sym::u8(); sym::assume(st != 0); deliver(0, state_resp(c.ch, st)); } }
    settle();
    sym::check(count(&taken(), 0x0207) == 0, "no heartbeat without a connection");
    // the gateway is away for a while
    let away = sym::pick(&[0, 25_000, 170_000]);
    let mut t = 0;
    while t < away { wait(5_000); sym::check(count(&taken(), 0x0207) == 0, "no heartbeat without a connection"); t += 5_000; }
    if away > 100_000 { wait(10_000); }
    let d = Conn::any();
    deliver(0, d.response(0));
    settle();
    let start = world().now;
    let mut last = None;
    let mut beats = 0;
    let mut i = 0;
    while i < 37 {
        for s in world().sent.drain(..) {
            if service(&s.data) != 0x0207 { continue; }
            sym::check(eq(&s.data, &d.heartbeat()), "with the new channel and endpoint");
            if let Some(l) = last { sym::check(s.at - l == 60_000, "sixty seconds between heartbeats"); }
            last = Some(s.at);
            beats += 1;
        }
        world().now += 5_000;
        settle();
        i += 1;
    }
    let _ = start;
    sym::check(beats >= 3 && beats <= 4, "one heartbeat per minute on the new connection");
    sym::reach("new channel");
}

/// An operation under way, or one message waiting to be read, does not delay the heartbeat.
#[no_mangle]
pub extern "C" fn h_c24_pending() {
    let k = sym::case(6);
    let c = Conn::any();
    let w = Who::connected(k >= 4, &c);
    wait(55_000);
    taken();
    let a = KnxAddress::group_1_level(7);
    let mut f: Op<()> = match k {
        0 => op(async { let _ = w.client().read_group_address_value(a).await; }),
        1 => op(async { let _ = w.client().write_group_address_value(a, vec![1], true).await; }),
        2 => op(async { let _ = w.client().get_connection_status().await; }),
        3 => op(async { let _ = w.client().disconnect().await; }),
        4 => op(async { let _ = w.monitor().next_msg().await; }),
        _ => op(async { let _ = w.monitor().disconnect().await; }),
    };
    drive(&mut f);
    taken();
    world().now += 4_999;
    drive(&mut f);
    sym::check(count(&taken(), 0x0207) == 0, "not before a minute has passed");
    world().now += 1;
    drive(&mut f);
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &c.heartbeat()), "the heartbeat is sent while an operation is under way");
    sym::reach("pending");
}
/// The minute passes while an operation is suspended at any of its await points, holding whatever it holds there.
#[no_mangle]
pub extern "C" fn h_c24_suspended() {
    let k = sym::case(8);
    let c = Conn::any();
    let w = Who::connected(k >= 4, &c);
    wait(30_000);
    taken();
    let a = KnxAddress::group_1_level(7);
    let mut f: Op<()> = match k {
        0 => op(async { let _ = w.client().read_group_address_value(a).await; }),
        1 => op(async { let _ = w.client().write_group_address_value(a, vec![1], true).await; }),
        2 => op(async { let _ = w.client().get_connection_status().await; }),
        3 => op(async { let _ = w.client().disconnect().await; }),
        4 => op(async { let _ = w.monitor().next_msg().await; }),
        5 => op(async { let _ = w.monitor().disconnect().await; }),
        6 => op(async { let _ = w.monitor().write_group_address_value(a, vec![1], true).await; }),
        _ => op(async { let _ = w.monitor().is_connected().await; }),
    };
    world().preempt = sym::tier(1, 3);
    let mut done = false;
    let mut i = 0;
    while i < sym::tier(1, 3) && !done { done = poll(f.as_mut()).is_ready(); i += 1; }
    world().preempt = 0;
    let asked = matches!(k, 2);
    let before = count(&taken(), 0x0207);
    sym::check(before <= asked as usize, "not before a minute has passed");
    world().now += 30_000;
    settle();
    world().now += 2_000;
    if !done { drive(&mut f); }
    settle();
    let s = taken();
    sym::check(before + count(&s, 0x0207) == 1 + asked as usize, "the heartbeat is sent, when the operation goes on at the latest");
    for x in of(&s, 0x0207) { sym::check(eq(x, &c.heartbeat()), "heartbeat carries channel and endpoint of the connection"); }
    wait(60_000);
    sym::check(count(&taken(), 0x0207) == 1, "and again a minute later");
    sym::reach("suspended");
}

// ---------------------------------------------------------------- C25
fn silent(c: &Conn, m: &str) {
    let mut i = 0;
    while i < 5 {
        wait(60_000);
        match i {
            0 => deliver(0, tunnel(c.ch, 7, &ldata(IND, 0xbc, 1, 2, 2, &[3]))),
            1 => deliver(0, disc_req(c)),
            2 => deliver(0, c.response(0)),
            3 => deliver(0, feature_resp(c.ch, 8)),
            _ => {}
        }
        settle();
        i += 1;
    }
    sym::check(taken().is_empty(), m);
}
#[no_mangle]
pub extern "C" fn h_c25_answered() {
    let k = sym::case(6);
    let mut c = Conn::any();
    let w = Who::connected(k & 1 == 1, &c);
    let st = sym::u8();
    match k >> 1 {
        // on a later connection
        1 => { deliver(0, disc_req(&c)); settle(); c = Conn::any(); deliver(0, c.response(0)); settle(); sym::reach("later connection"); }
        // after other requests and control messages
        2 => {
            let mut f = w.ask(KnxAddress::group_1_level(7));
            let done = drive(&mut f).is_some();
            deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, 1, 7, 1, &[3])));
            if done { settle(); } else { drive(&mut f); }
            deliver(0, state_resp(c.ch, 0));
            settle();
            sym::reach("after requests");
        }
        _ => {}
    }
    taken();
    {
        let mut f = w.disconnect();
        let r = drive(&mut f);
        let s = taken();
        sym::check(r.is_none(), "waits for the response");
        sym::check(s.len() == 1 && eq(&s[0], &c.disconnect()), "one disconnect request for the channel and endpoint of the connection");
        // traffic before the response
        let k = sym::split(sym::below(4) as u64);
        let q = sym::u8();
        match k {
            0 => { deliver(0, tunnel(c.ch, q, &ldata(IND, 0xbc, 1, 2, 2, &[3]))); }
            1 => { deliver(0, state_resp(c.ch, 0)); }
            2 => { deliver(0, vec![1, 2, 3]); }
            _ => {}
        }
        if k < 3 {
            let r = drive(&mut f);
            sym::check(r.is_none(), "other datagrams do not answer a disconnect request");
            sym::reach("traffic");
        }
        let t = taken();
        sym::check(t.len() == (k == 0) as usize, "nothing but acknowledgements");
        let dt = sym::u16();
        sym::assume(dt < 10_000);
        world().now += dt as u64;
        deliver(0, disc_resp(c.ch, st));
        match drive(&mut f) {
            Some(Ok(x)) => sym::check(x.is_none() || x == Some(st), "status of the response"),
            Some(Err(_)) => sym::check(st != 0, "a successful disconnect is reported as such"),
            None => sym::check(false, "completes with the response"),
        }
    }
    taken();
    if let Who::M(m) = &w { sym::check(!now(m.is_connected()), "not connected afterwards"); }
    not_usable(&w, "requests fail after the disconnect");
    {
        let mut f = w.ask(KnxAddress::group_1_level(7));
        sym::check(drive(&mut f) == Some(false), "requests fail after the disconnect");
        let mut f = w.disconnect();
        sym::check(matches!(drive(&mut f), Some(Err(_))), "there is no connection to end any more");
        if let Who::C(cl) = &w { let mut f = op(cl.get_connection_status()); sym::check(matches!(drive(&mut f), Some(Err(_))), "status queries fail after the disconnect"); }
    }
    silent(&c, "no traffic after the disconnect");
    if let Who::M(m) = &w { sym::check(!now(m.is_connected()), "still not connected"); }
    sym::reach("disconnected");
}
#[no_mangle]
pub extern "C" fn h_c25_unanswered() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let mut f = w.disconnect();
    drive(&mut f);
    world().now += 9_999;
    sym::check(drive(&mut f).is_none(), "waits ten seconds");
    world().now += 1;
    sym::check(matches!(drive(&mut f), Some(Err(_))), "then reports the failure");
    drop(f);
    sym::check(count(&taken(), 0x0209) == 1, "one disconnect request");
    // it can be tried again
    let mut f = w.disconnect();
    drive(&mut f);
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &c.disconnect()), "one disconnect request for the channel and endpoint of the connection");
    deliver(0, disc_resp(c.ch, 0));
    sym::check(matches!(drive(&mut f), Some(Ok(x)) if x.unwrap_or(0) == 0), "completes with the response");
    drop(f);
    silent(&c, "no traffic after the disconnect");
    sym::reach("timed out");
}
/// Whatever arrives together with the response, it is the response that counts.
#[no_mangle]
pub extern "C" fn h_c25_burst() {
    let k = sym::case(12);
    let (monitor, n) = (k & 1 == 1, [1usize, 9, 10, 11, 12, 60][k >> 1]);
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let (st, v) = (sym::u8(), sym::u8());
    let mut f = w.disconnect();
    sym::check(drive(&mut f).is_none(), "waits for the response");
    taken();
    let mixed = sym::split(sym::bool() as u64) == 1;
    let mut i = 0;
    let mut acks = 0;
    while i < n {
        if mixed && i % 3 == 2 { deliver(0, tunnel(c.ch, i as u8, &ldata(IND, 0xbc, 1, 2, 2, &[v]))); acks += 1; }
        else { deliver(0, state_resp(c.ch, 0)); }
        i += 1;
    }
    deliver(0, disc_resp(c.ch, st));
    match drive(&mut f) {
        Some(Ok(x)) => sym::check(x.is_none() || x == Some(st), "status of the response"),
        Some(Err(_)) => sym::check(!monitor && st != 0, "completes with the response"),
        None => sym::check(false, "completes with the response"),
    }
    sym::check(taken().len() == acks, "requests are acknowledged, nothing else is sent");
    sym::reach("burst");
}
#[no_mangle]
pub extern "C" fn h_c25_not_connected() {
    let k = sym::case(4);
    let w;
    if k < 2 {
        w = Who::new(k == 1);
        taken();
        let mut f = w.disconnect();
        sym::check(matches!(drive(&mut f), Some(Err(_))), "no connection to end");
        sym::check(taken().is_empty(), "nothing is sent");
        sym::reach("never connected");
    } else {
        let c = Conn::any();
        w = Who::connected(k == 3, &c);
        world().send_fail = 1;
        let mut f = w.disconnect();
        sym::check(matches!(drive(&mut f), Some(Err(_))), "a request that cannot be sent is an error");
        sym::reach("not sent");
    }
}

// ---------------------------------------------------------------- C26
#[no_mangle]
pub extern "C" fn h_c26_reconnect() {
    let k = sym::case(10);
    let monitor = k & 1 == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let mut rounds = 0;
    let mut old = c;
    while rounds < sym::tier(2, 3) {
        // the connection was used, or not
        if sym::split(sym::bool() as u64) == 1 {
            let mut i = 0;
            while i < 2 {
                let mut f = w.ask(KnxAddress::group_1_level(7));
                drive(&mut f);
                if !monitor { deliver(0, tunnel(old.ch, i, &ldata(IND, 0xbc, 1, 7, 1, &[3]))); drive(&mut f); }
                i += 1;
            }
            deliver(0, state_resp(old.ch, 0));
            deliver(0, tunnel(old.ch, 5, &ldata(IND, 0xbc, 1, 8, 1, &[3])));
            settle();
            taken();
            sym::reach("used connection");
        }
        reselect();
        match k / 2 {
            0 => {
                deliver(0, disc_req(&old));
                settle();
                let s = taken();
                sym::check(s.len() >= 1 && eq(&s[0], &disc_resp(old.ch, 0)), "a disconnect request is answered for its channel");
                sym::check(count(&s, 0x020a) == 1, "answered once");
                world().sent.clear();
                for x in s { world().sent.push(tokio::verif::Sent { sock: 0, data: x, to: None, at: 0 }); }
                sym::reach("gateway disconnects");
            }
            1 => {
                let st = sym::u8();
                sym::assume(st != 0);
                deliver(0, state_resp(old.ch, st));
                settle();
                sym::reach("gateway reports an error");
            }
            2 => { push(0, In::Error); settle(); sym::reach("receive fails"); }
            3 => {
                world().send_fail = 1;
                deliver(0, if sym::bool() { tunnel(old.ch, 0, &ldata(IND, 0xbc, 1, 2, 2, &[3])) } else { feature_resp(old.ch, 0) });
                settle();
                sym::reach("acknowledgement cannot be sent");
            }
            _ => { world().send_fail = 1; wait(60_000); sym::reach("heartbeat cannot be sent"); }
        }
        let mut s = taken();
        if count(&s, 0x0205) == 0 { wait(10_000); s = taken(); }
        let q = of(&s, 0x0205);
        sym::check(q.len() == 1 && eq(q[0], &CONNECT), "a new connection is requested");
        if let Who::M(m) = &w { sym::check(!now(m.is_connected()), "not connected in the meantime"); }
        not_usable(&w, "requests fail until the new connection is established");
        let n = Conn::any();
        reselect();
        deliver(0, n.response(0));
        settle();
        world().sym_select = false;
        usable(&w, &n, w.seq0());
        // the new connection lives on
        wait(60_000);
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &n.heartbeat()), "the new connection is kept");
        deliver(0, tunnel(n.ch, 5, &ldata(IND, 0xbc, 1, 8, 1, &[3])));
        settle();
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &ack(n.ch, 5)), "the new connection is kept");
        old = n;
        rounds += 1;
    }
    sym::reach("reconnected");
}
/// An operation under way when the connection is lost ends with an error; client and monitor stay usable.
#[no_mangle]
pub extern "C" fn h_c26_pending() {
    let k = sym::case(15);
    let c = Conn::any();
    let w = Who::connected(k / 3 == 4, &c);
    let (a, _g) = group();
    let n = Conn::any();
    {
        let mut f: Op<bool> = match k / 3 {
            0 => w.ask(a),
            1 => w.write(a, vec![1], true),
            2 => op(async { w.client().get_connection_status().await.is_ok() }),
            3 => op(async { w.client().disconnect().await.is_ok() }),
            _ => op(async { w.monitor().disconnect().await.is_ok() }),
        };
        drive(&mut f);
        match k % 3 { 0 => deliver(0, disc_req(&c)), 1 => push(0, In::Error), _ => { world().send_fail = 1; deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, 1, 2, 2, &[3]))); } }
        let mut r = drive(&mut f);
        let s = taken();
        let q = of(&s, 0x0205);
        sym::check(q.len() == 1 && eq(q[0], &CONNECT), "a new connection is requested");
        deliver(0, n.response(0));
        if r.is_none() { r = drive(&mut f); } else { settle(); }
        world().now += 10_000;
        if r.is_none() { r = drive(&mut f); } else { settle(); }
        sym::check(r == Some(false), "the operation ends with an error");
    }
    taken();
    usable(&w, &n, w.seq0());
    sym::reach("pending");
}
/// The gateway stays away for a while: attempts go on until it is back.
#[no_mangle]
pub extern "C" fn h_c26_away() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    deliver(0, disc_req(&c));
    settle();
    let mut i = 0;
    while i < sym::tier(5, 50) {
        let s = taken();
        let q = of(&s, 0x0205);
        sym::check(q.len() == 1 && eq(q[0], &CONNECT), "a new connection is requested, again and again");
        match sym::pick(&[0, 1]) { 0 => { wait(30_000); } _ => { push(0, In::Error); settle(); } }
        wait(10_000);
        i += 1;
    }
    not_usable(&w, "requests fail until the new connection is established");
    let n = Conn::any();
    deliver(0, n.response(0));
    settle();
    usable(&w, &n, w.seq0());
    sym::reach("back");
}

// ---------------------------------------------------------------- C27
/// Nothing a datagram contains disturbs the connection unless it is a well-formed control message that does.
#[no_mangle]
pub extern "C" fn h_c27_any() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(k == 1, &c);
    let max = sym::tier(22, 30);
    let mut i = 0;
    while i < 1 {
        let b = Buf::any(max);
        let d = b.get().to_vec();
        sym::assume(!well_formed(&d));
        deliver(0, d);
        settle();
        sym::check(taken().is_empty(), "a malformed datagram is not answered and ends nothing");
        i += 1;
    }
    still_works(&w, &c);
    sym::reach("malformed");
}
/// The six kinds of datagrams that mean something on a connection.
fn well_formed(d: &[u8]) -> bool {
    if d.len() < 8 || d[0] != 6 || d[1] != 0x10 { return false; }
    let t = be16(d, 4) as usize;
    match be16(d, 2) {
        0x0420 => is_tunnel(d),
        0x0421 => d.len() >= 10 && t == 10 && d[6] == 4,
        0x0423 => is_feature(d),
        0x0208 | 0x020a => t == 8,
        0x0209 => d.len() >= 16 && d[8] == 8,
        _ => false,
    }
}
/// A request cut anywhere, up to the largest datagram.
#[no_mangle]
pub extern "C" fn h_c27_long() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(k == 1, &c);
    let n = sym::pick(&[30, 99, 100, 254, 255, 256, 300, 511, 512]);
    let total = match sym::split(sym::below(4) as u64) { 0 => n + 1, 1 => n + 256, 2 => 0xffff, _ => 9 };
    let mut d = vec![0u8; n];
    d[..10].copy_from_slice(&[6, 0x10, 4, 0x20, (total >> 8) as u8, total as u8, 4, sym::u8(), sym::u8(), sym::u8()]);
    d[10] = sym::u8();
    d[n - 1] = sym::u8();
    deliver(0, d);
    settle();
    sym::check(taken().is_empty(), "a malformed datagram is not answered and ends nothing");
    still_works(&w, &c);
    sym::reach("cut");
}
/// Many malformed datagrams of all services, with an operation under way.
#[no_mangle]
pub extern "C" fn h_c27_pending() {
    let k = sym::case(6);
    let c = Conn::any();
    let w = Who::connected(k >= 4, &c);
    let a = KnxAddress::group_1_level(7);
    let mut f: Op<()> = match k {
        0 => op(async { let _ = w.client().read_group_address_value(a).await; }),
        1 => op(async { let _ = w.client().write_group_address_value(a, vec![1], true).await; }),
        2 => op(async { let _ = w.client().get_connection_status().await; }),
        3 => op(async { let _ = w.client().disconnect().await; }),
        4 => op(async { let _ = w.monitor().next_msg().await; }),
        _ => op(async { let _ = w.monitor().disconnect().await; }),
    };
    drive(&mut f);
    taken();
    let x = sym::bytes(20);
    let mut i = 0;
    while i < 24 {
        let svc = [[4u8, 0x20], [4, 0x21], [4, 0x23], [2, 8], [2, 9], [2, 10], [2, 6], [4, 0x24]][i % 8];
        let d = match i / 8 {
            0 => vec![6, 0x10, svc[0], svc[1], 0],
            1 => { let mut d = vec![6, 0x10, svc[0], svc[1], 0, 7, x[i - 8]]; d.truncate(7); d }
            _ => { let mut d = vec![6, 0x10, svc[0], svc[1], 0, 3, 4]; d.extend_from_slice(&x); d[8] = 5; d }
        };
        // the size octets are not checked by every decoder
        if i / 8 == 2 && (svc == [2, 9]) { i += 1; continue; }
        deliver(0, d);
        sym::check(drive(&mut f).is_none(), "malformed datagrams do not end an operation");
        sym::check(taken().is_empty(), "a malformed datagram is not answered and ends nothing");
        i += 1;
    }
    drop(f);
    wait(10_000);
    taken();
    still_works(&w, &c);
    sym::reach("pending");
}
fn still_works(w: &Who, c: &Conn) {
    let (a, g) = group();
    let v = sym::u8();
    let x = ldata(IND, 0xbc, 0x1101, g, 1, &[v]);
    match w {
        Who::C(cl) => {
            let mut f = op(cl.read_group_address_value(a));
            drive(&mut f);
            deliver(0, tunnel(c.ch, 9, &x));
            match drive(&mut f) { Some(Ok(r)) => sym::check(eq(&r, &[v]), "the next answer is received"), _ => sym::check(false, "the next answer is received") }
        }
        Who::M(m) => {
            let mut f = op(m.next_msg());
            drive(&mut f);
            deliver(0, tunnel(c.ch, 9, &x));
            match drive(&mut f) { Some(Ok(r)) => sym::check(r.l_data.dest == g && eq(&r.value, &[v]), "the next message is received"), _ => sym::check(false, "the next message is received") }
        }
    }
    let s = taken();
    sym::check(count(&s, 0x0421) == 1 && count(&s, 0x0205) == 0, "on the same connection");
}
/// Well-formed tunnelling requests with arbitrary contents: acknowledged, otherwise ignored when undecodable.
#[no_mangle]
pub extern "C" fn h_c27_cemi() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(k == 1, &c);
    let n = sym::len(sym::tier(10, 16));
    let e = sym::bytes(n);
    // for the monitor, messages it would deliver are left to C22
    if k == 1 { sym::assume(n == 0 || e[0] != 0x29 && e[0] != 0x2b); }
    deliver(0, tunnel(c.ch, 3, &e));
    settle();
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &ack(c.ch, 3)), "acknowledged, nothing else");
    still_works(&w, &c);
    sym::reach("contents");
}
/// A monitor reports an undecodable indication as an error and goes on.
#[no_mangle]
pub extern "C" fn h_c27_indication() {
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let n = sym::len(sym::tier(12, 16));
    let mut e = vec![if sym::split(sym::bool() as u64) == 0 { 0x29u8 } else { 0x2b }, 0];
    e.extend_from_slice(&sym::bytes(n));
    deliver(0, tunnel(c.ch, 3, &e));
    settle();
    taken();
    let m = w.monitor();
    {
        let mut f = op(m.next_msg());
        let r = drive(&mut f);
        let complete = n >= 9 && n >= 8 + if e[8] == 0 { 1 } else { e[8] as usize };
        match r {
            Some(Ok(r)) => sym::check(complete && r.l_data.dest == be16(&e, 6), "no message is made of a truncated one"),
            Some(Err(_)) => { sym::check(!complete, "a complete message is no error"); sym::reach("truncated"); }
            None => sym::check(false, "an undecodable indication is reported"),
        }
    }
    still_works(&w, &c);
    sym::reach("indication");
}
/// Malformed datagrams while connecting.
#[no_mangle]
pub extern "C" fn h_c27_connecting() {
    let k = sym::case(2);
    let w = Who::new(k == 1);
    taken();
    let b = Buf::any(sym::tier(14, 30));
    let d = b.get().to_vec();
    sym::assume(!(d.len() >= 4 && d[2] == 2 && d[3] == 6));
    deliver(0, d);
    settle();
    sym::check(taken().is_empty(), "not answered");
    let c = Conn::any();
    deliver(0, c.response(0));
    settle();
    usable(&w, &c, w.seq0());
    sym::reach("connecting");
}

// ---------------------------------------------------------------- C32
/// Nobody reads: every request is still acknowledged, heartbeats go on, disconnect requests are answered.
#[no_mangle]
pub extern "C" fn h_c32_unread() {
    let k = sym::case(4);
    let (monitor, full) = (k & 1 == 1, k & 2 != 0);
    let c = Conn::any();
    let n = if full { 104 } else { sym::tier(5, 8) };
    let w = Who::connected(monitor, &c);
    let mut i = 0;
    while i < n {
        let (ch, v) = if full { (c.ch, i as u8) } else { (sym::u8(), sym::u8()) };
        deliver(0, tunnel(ch, i as u8, &ldata(IND, 0xbc, 1, 2, 2, &[v])));
        settle();
        let s = taken();
        sym::check(count(&s, 0x0421) == 1 && eq(of(&s, 0x0421)[0], &ack(ch, i as u8)), "every request is acknowledged");
        sym::check(count(&s, 0x0205) == 0, "the connection is kept");
        i += 1;
    }
    wait(60_000);
    let s = taken();
    sym::check(count(&s, 0x0207) == 1, "heartbeats go on");
    if let Who::M(m) = &w {
        // the oldest messages are still there
        let mut f = op(m.next_msg());
        match drive(&mut f) { Some(Ok(r)) => sym::check(r.l_data.dest == 2, "messages can be read afterwards"), _ => sym::check(false, "messages can be read afterwards") }
        sym::reach("monitor");
    } else {
        let (a, g) = group();
        let v = sym::u8();
        let mut f = op(w.client().read_group_address_value(a));
        drive(&mut f);
        deliver(0, tunnel(c.ch, 250, &ldata(IND, 0xbc, 0x1101, g, 1, &[v])));
        match drive(&mut f) { Some(Ok(r)) => sym::check(eq(&r, &[v]), "reads work afterwards"), _ => sym::check(false, "reads work afterwards") }
        drop(f);
        let e = sym::u8();
        let mut i = 0;
        while i < n { deliver(0, tunnel(c.ch, 100 + i as u8, &ldata(if i & 1 == 0 { IND } else { CON }, 0xbc, 1, g, 2, &[v]))); i += 1; }
        settle();
        let mut f = w.write(KnxAddress::group_1_level(g), vec![1, 2], false);
        sym::check(drive(&mut f).is_none(), "writes wait for their own confirmation");
        deliver(0, tunnel(c.ch, 251, &ldata(CON, e, 0x1101, g, 2, &[])));
        sym::check(drive(&mut f) == Some(e & 1 == 0), "writes work afterwards");
        drop(f);
        let mut f = op(w.client().get_connection_status());
        drive(&mut f);
        deliver(0, state_resp(c.ch, 0));
        sym::check(matches!(drive(&mut f), Some(Ok(_))), "status queries work afterwards");
        sym::reach("client");
    }
    taken();
    deliver(0, disc_req(&c));
    settle();
    let s = taken();
    sym::check(count(&s, 0x020a) == 1 && count(&s, 0x0205) == 1, "the gateway may still disconnect");
    sym::reach("unread");
}
/// Control responses nobody waits for.
#[no_mangle]
pub extern "C" fn h_c32_control() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(k == 1, &c);
    let mut i = 0;
    while i < 14 {
        deliver(0, state_resp(c.ch, 0));
        settle();
        i += 1;
    }
    deliver(0, tunnel(c.ch, 1, &ldata(IND, 0xbc, 1, 2, 2, &[3])));
    settle();
    let s = taken();
    sym::check(count(&s, 0x0421) == 1 && count(&s, 0x0205) == 0, "requests are acknowledged");
    wait(60_000);
    let s = taken();
    sym::check(count(&s, 0x0207) == 1, "heartbeats go on");
    let st = sym::u8();
    let mut f = w.disconnect();
    sym::check(drive(&mut f).is_none(), "waits for the response");
    deliver(0, disc_resp(c.ch, st));
    match drive(&mut f) {
        Some(Ok(x)) => sym::check(x.is_none() || x == Some(st), "status of the response"),
        Some(Err(_)) => sym::check(st != 0, "disconnect works"),
        None => sym::check(false, "disconnect works"),
    }
    sym::reach("control");
}
