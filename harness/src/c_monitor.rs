//! C22 delivery, C28 monitor set-up.
use crate::net::*;
use crate::sym;
use crate::util::*;

fn same(r: &LDataInd, x: &(u16, u16, u8)) -> bool { (r.l_data.src == x.0) & (r.l_data.dest == x.1) & eq(&r.value, &[x.2]) }

// ---------------------------------------------------------------- C22
/// Messages come out in the order they came in, each once: a repetition (the same sequence number as the
/// request before it on this connection) is dropped.
#[no_mangle]
pub extern "C" fn h_c22_order() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    let mut want: Vec<(u16, u16, u8)> = vec![];
    let mut seq = sym::u8();
    let mut n = 0;
    let max = if k == 1 { sym::tier(3, 4) } else { sym::tier(4, 6) };
    let mut f = op(m.next_msg());
    let mut got = 0;
    while n < max {
        // n == 0: any first number; then the same again, or the next
        let again = n > 0 && sym::split(sym::bool() as u64) == 1;
        if n > 0 && !again { seq = seq.wrapping_add(1); }
        let x = (sym::u16(), sym::u16(), sym::u8());
        // a repetition carries the same contents
        let x = if again { *want.last().unwrap_or(&x) } else { x };
        deliver(0, tunnel(c.ch, seq, &ldata(IND, 0xbc, x.0, x.1, 2, &[x.2])));
        if !again { want.push(x); }
        if k == 1 { reselect(); if sym::split(sym::bool() as u64) == 1 { world().now += 60_000; } }
        // read as they come, or later
        if sym::split(sym::bool() as u64) == 1 {
            while let Some(r) = drive(&mut f) {
                match r {
                    Ok(r) => { sym::check(got < want.len() && same(&r, &want[got]), "in order, each once"); got += 1; }
                    Err(_) => sym::check(false, "no error"),
                }
                f = op(m.next_msg());
            }
            sym::check(got == want.len(), "nothing is held back");
            sym::reach("read at once");
        } else { settle(); sym::reach("read later"); }
        if again { sym::reach("repetition"); }
        n += 1;
    }
    while let Some(r) = drive(&mut f) {
        match r {
            Ok(r) => { sym::check(got < want.len() && same(&r, &want[got]), "in order, each once"); got += 1; }
            Err(_) => sym::check(false, "no error"),
        }
        f = op(m.next_msg());
    }
    sym::check(got == want.len(), "every message is delivered");
    sym::reach("history");
}
/// Other datagrams in between: confirmations, feature responses, unknown codes, malformed ones.
#[no_mangle]
pub extern "C" fn h_c22_mixed() {
    // read all at the end, or one message each time
    let each = sym::case(2) == 1;
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    let mut want: Vec<(u16, u16, u8)> = vec![];
    let (mut got, mut bad) = (0, 0);
    let mut seq = sym::u8();
    let mut f = op(m.next_msg());
    let mut n = 0;
    while n < sym::tier(3, 4) {
        let x = (sym::u16(), sym::u16(), sym::u8());
        let d = match sym::split(sym::below(8) as u64) {
            0 => { want.push(x); tunnel(c.ch, seq, &ldata(IND, 0xbc, x.0, x.1, 2, &[x.2])) }
            1 => tunnel(c.ch, seq, &ldata(CON, 0xbc, x.0, x.1, 2, &[x.2])),
            2 => feature_resp(c.ch, seq),
            3 => tunnel(c.ch, seq, &[0xfc, 0, 1, 2]),
            4 => { want.push(x); tunnel(c.ch, seq, &ldata(0x2b, 0xbc, x.0, x.1, 2, &[x.2])) }
            5 => vec![6, 0x10, 4, 0x20, 0, 9, 4],
            // undecodable indications may be reported
            6 => { bad += 1; tunnel(c.ch, seq, &[IND, 0, 0xbc, x.2, 1]) }
            _ => { bad += 1; tunnel(c.ch, seq, &[0x2b, 9, x.2]) }
        };
        deliver(0, d);
        seq = seq.wrapping_add(1);
        settle();
        n += 1;
        let last = n == sym::tier(3, 4);
        while each || last {
            match drive(&mut f) {
                Some(Ok(r)) => { sym::check(got < want.len() && same(&r, &want[got]), "in order, each once"); got += 1; }
                Some(Err(_)) => { sym::check(bad > 0, "no error"); bad -= 1; }
                None => break,
            }
            f = op(m.next_msg());
            if each && !last { break; }
        }
    }
    sym::check(got == want.len(), "every message is delivered");
    sym::reach("history");
}
/// A new connection starts a new numbering: its first request is no repetition.
#[no_mangle]
pub extern "C" fn h_c22_reconnect() {
    let k = sym::case(4);
    let monitor = k & 1 == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let seq = sym::u8();
    deliver(0, tunnel(c.ch, seq, &ldata(IND, 0xbc, 1, 2, 2, &[1])));
    settle();
    if k & 2 == 0 { deliver(0, disc_req(&c)); } else { push(0, In::Error); }
    settle();
    let d = Conn::any();
    deliver(0, d.response(0));
    settle();
    let v = sym::u8();
    let (a, g) = group();
    let x = tunnel(d.ch, seq, &ldata(IND, 0xbc, 1, g, 2, &[v]));
    if let Who::M(m) = &w {
        deliver(0, x);
        settle();
        let r = now(m.next_msg());
        sym::check(matches!(r, Ok(r) if eq(&r.value, &[1])), "the message of the old connection");
        let mut f = op(m.next_msg());
        match drive(&mut f) { Some(Ok(r)) => sym::check(r.l_data.dest == g && eq(&r.value, &[v]), "the first message of the new connection"), _ => sym::check(false, "the first message of the new connection") }
        sym::reach("monitor");
    } else {
        let mut f = op(w.client().read_group_address_value(a));
        drive(&mut f);
        deliver(0, x);
        match drive(&mut f) { Some(Ok(r)) => sym::check(eq(&r, &[v]), "the first message of the new connection"), _ => sym::check(false, "the first message of the new connection") }
        sym::reach("client");
    }
}
/// For the client, too: a repeated indication does not answer a later read, a repeated confirmation no later write.
#[no_mangle]
pub extern "C" fn h_c22_client() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let g = sym::u16();
    let seq = sym::u8();
    let (x, y) = (sym::u8(), sym::u8());
    let cl = w.client();
    if k == 0 {
        let one = tunnel(c.ch, seq, &ldata(IND, 0xbc, 1, g, 1, &[x]));
        {
            let mut f = op(cl.read_group_address_value(KnxAddress::group_1_level(g)));
            drive(&mut f);
            deliver(0, one.clone());
            sym::check(matches!(drive(&mut f), Some(Ok(v)) if eq(&v, &[x])), "first value");
        }
        let mut f = op(cl.read_group_address_value(KnxAddress::group_1_level(g)));
        drive(&mut f);
        taken();
        deliver(0, one);
        sym::check(drive(&mut f).is_none(), "a repetition is no new value");
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &ack(c.ch, seq)), "it is acknowledged");
        deliver(0, tunnel(c.ch, seq.wrapping_add(1), &ldata(IND, 0xbc, 1, g, 1, &[y])));
        sym::check(matches!(drive(&mut f), Some(Ok(v)) if eq(&v, &[y])), "second value");
        sym::reach("read");
    } else {
        let one = tunnel(c.ch, seq, &ldata(CON, 0xbc, 1, g, 2, &[]));
        {
            let mut f = w.write(KnxAddress::group_1_level(g), vec![x], true);
            drive(&mut f);
            deliver(0, one.clone());
            sym::check(drive(&mut f) == Some(true), "first confirmation");
        }
        let mut f = w.write(KnxAddress::group_1_level(g), vec![y], true);
        drive(&mut f);
        deliver(0, one);
        sym::check(drive(&mut f).is_none(), "a repetition confirms nothing");
        deliver(0, tunnel(c.ch, seq.wrapping_add(1), &ldata(CON, 0xbd, 1, g, 2, &[])));
        sym::check(drive(&mut f) == Some(false), "second confirmation");
        sym::reach("write");
    }
}
/// Any numbers at all: only the number of the request before it makes a request a repetition.
#[no_mangle]
pub extern "C" fn h_c22_numbers() {
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    let n = sym::tier(4, 5);
    let seq = sym::bytes(n);
    let mut want = vec![];
    let mut i = 0;
    while i < n {
        let again = i > 0 && sym::split((seq[i] == seq[i - 1]) as u64) == 1;
        deliver(0, tunnel(c.ch, seq[i], &ldata(IND, 0xbc, 1, 2, 2, &[if again { want[want.len() - 1] } else { i as u8 }])));
        if !again { want.push(i as u8); }
        settle();
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &ack(c.ch, seq[i])), "acknowledged");
        i += 1;
    }
    let mut i = 0;
    while i < want.len() {
        match drive(&mut op(m.next_msg())) { Some(Ok(r)) => sym::check(eq(&r.value, &[want[i]]), "in order, each once"), _ => sym::check(false, "every message that is no repetition is delivered") }
        i += 1;
    }
    sym::check(drive(&mut op(m.next_msg())).is_none(), "nothing else is delivered");
    sym::reach("numbers");
}
/// Any complete message, up to the largest frame, comes out unchanged.
#[no_mangle]
pub extern "C" fn h_c22_unchanged() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    let n = sym::pick(&[0, 1, 2, 13, 14, 15, 60, 127, 128, 200, 253, 254]);
    let mut si = sym::bytes(9);
    si[6] = if n == 0 { sym::below(2) } else { n as u8 + 1 };
    let mut v = vec![0xa5u8; n];
    let mut i = 0;
    while i < n { if i < 20 || i + 2 > n { v[i] = sym::u8(); } i += 1; }
    si.extend_from_slice(&v);
    let add = sym::split(sym::below(3) as u64);
    let mut e = vec![[0x29u8, 0x2b][k], 0];
    match add { 1 => { e[1] = 3; e.extend_from_slice(&[3, 1, sym::u8()]); } 2 => { e[1] = 9; e.extend_from_slice(&[3, 1, sym::u8(), 4, 4, sym::u8(), 1, 2, sym::u8()][..]); e[1] = 9; } _ => {} }
    e.extend_from_slice(&si);
    let seq = sym::u8();
    let d = tunnel(sym::u8(), seq, &e);
    deliver(0, d.clone());
    let again = sym::split(sym::bool() as u64) == 1;
    if again { deliver(0, d); }
    let mut f = op(m.next_msg());
    match drive(&mut f) { Some(Ok(r)) => unchanged(&r, &si, n), _ => sym::check(false, "the message is delivered") }
    let mut f = op(m.next_msg());
    sym::check(drive(&mut f).is_none(), "once");
    sym::reach("unchanged");
}
fn unchanged(r: &LDataInd, si: &[u8], n: usize) {
    crate::c_emi::bits(&r.l_data, si);
    sym::check(if n == 0 { eq(&r.value, &[si[8] & 0x3f]) } else { eq(&r.value, &si[9..]) }, "the value is unchanged");
    sym::check(eq(&r.cemi.service_info, si), "the message is unchanged");
}
/// A reader who gives up waiting (at any time) loses no message.
#[no_mangle]
pub extern "C" fn h_c22_abandoned() {
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    world().preempt = sym::tier(2, 4);
    let mut want: Vec<(u16, u16, u8)> = vec![];
    let mut got = 0;
    let mut i = 0;
    while i < 3 {
        let x = (sym::u16(), sym::u16(), sym::u8());
        {
            let mut f = op(m.next_msg());
            let mut done = false;
            if sym::bool() {
                // given up before the message
                if let std::task::Poll::Ready(r) = poll(f.as_mut()) { done = true; match r { Ok(r) => { sym::check(got < want.len() && same(&r, &want[got]), "in order, each once"); got += 1; } Err(_) => sym::check(false, "no error") } }
            }
            deliver(0, tunnel(c.ch, i as u8, &ldata(IND, 0xbc, x.0, x.1, 2, &[x.2])));
            want.push(x);
            settle();
            if !done && sym::bool() {
                if let std::task::Poll::Ready(r) = poll(f.as_mut()) { match r { Ok(r) => { sym::check(got < want.len() && same(&r, &want[got]), "in order, each once"); got += 1; } Err(_) => sym::check(false, "no error") } }
            }
        }
        settle();
        i += 1;
    }
    world().preempt = 0;
    let mut f = op(m.next_msg());
    while let Some(r) = drive(&mut f) {
        match r {
            Ok(r) => { sym::check(got < want.len() && same(&r, &want[got]), "in order, each once"); got += 1; }
            Err(_) => sym::check(false, "no error"),
        }
        f = op(m.next_msg());
    }
    sym::check(got == want.len(), "every message is delivered");
    sym::reach("abandoned");
}
/// However a heartbeat and the handling of a message interleave, the message is delivered.
#[no_mangle]
pub extern "C" fn h_c22_interleaved() {
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    world().sym_select = true;
    world().preempt = sym::tier(2, 3);
    let x = (sym::u16(), sym::u16(), sym::u8());
    world().now += 60_000;
    deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, x.0, x.1, 2, &[x.2])));
    let mut i = 0;
    while i < 6 { tokio::task::run(0); i += 1; }
    settle();
    world().preempt = 0;
    let mut f = op(m.next_msg());
    match drive(&mut f) { Some(Ok(r)) => sym::check(same(&r, &x), "the message is unchanged"), _ => sym::check(false, "the message is delivered") }
    sym::reach("interleaved");
}
/// A whole backlog of the documented size is delivered in order.
#[no_mangle]
pub extern "C" fn h_c22_backlog() {
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let v = sym::u8();
    let mut i = 0u8;
    while i < 100 { deliver(0, tunnel(c.ch, i, &ldata(IND, 0xbc, 1, i as u16, 2, &[v]))); if i % 9 == 0 { settle(); } i += 1; }
    settle();
    let m = w.monitor();
    let mut i = 0u8;
    while i < 100 {
        let mut f = op(m.next_msg());
        match drive(&mut f) { Some(Ok(r)) => sym::check(r.l_data.dest == i as u16 && eq(&r.value, &[v]), "in order"), _ => sym::check(false, "a hundred unread messages are kept") }
        i += 1;
    }
    sym::reach("backlog");
}

// ---------------------------------------------------------------- C28
fn enable(c: &Conn) -> [u8; 13] { [6, 0x10, 4, 0x24, 0, 13, 4, c.ch, 0, 0, 8, 0, 1] }
/// On every connection the info service is enabled first and every listener is notified.
#[no_mangle]
pub extern "C" fn h_c28_connect() {
    let k = sym::case(3);
    let w = Who::new(true);
    let m = w.monitor();
    let (ta, mut ra) = mpsc::channel::<()>(4);
    let (tb, mut rb) = mpsc::channel::<()>(1);
    let (tc, rc) = mpsc::channel::<()>(1);
    now(m.add_on_connect(ta));
    now(m.add_on_connect(tc));
    now(m.add_on_connect(tb));
    // a listener goes away before, between or after
    let mut rc = Some(rc);
    if k == 0 { rc = None; }
    taken();
    let mut n = 0;
    let mut c = Conn::any();
    while n < sym::tier(3, 5) {
        deliver(0, c.response(0));
        settle();
        let s = taken();
        let q = of(&s, 0x0424);
        sym::check(q.len() == 1 && eq(q[0], &enable(&c)), "the info service of the new channel is enabled once, with number 0");
        sym::check(!s.is_empty() && service(&s[0]) == 0x0424, "before anything else");
        sym::check(now(m.is_connected()), "connected");
        sym::check(ra.try_recv().is_ok() && ra.try_recv().is_err(), "a listener is notified once per connection");
        // the second listener never reads more than one
        if n == 1 { sym::check(rb.try_recv().is_ok() && rb.try_recv().is_err(), "a slow listener still has a notification"); }
        if n == 0 && k == 1 { rc = None; }
        if n + 1 < sym::tier(3, 5) {
            match sym::split(sym::below(3) as u64) {
                0 => deliver(0, disc_req(&c)),
                1 => deliver(0, state_resp(c.ch, 0x26)),
                _ => push(0, In::Error),
            }
            settle();
            sym::check(!now(m.is_connected()), "not connected");
            sym::check(ra.try_recv().is_err(), "no notification without a connection");
            taken();
            c = Conn::any();
        }
        n += 1;
    }
    sym::check(rb.try_recv().is_ok(), "a slow listener is still notified");
    drop(rc);
    usable_seq(&w, &c);
    sym::reach("connections");
}
fn usable_seq(w: &Who, c: &Conn) {
    let (a, g) = group();
    let mut f = w.ask(a);
    sym::check(drive(&mut f) == Some(true), "requests are sent");
    let s = taken();
    let q = of(&s, 0x0420);
    sym::check(q.len() == 1 && is_request(q[0], c.ch, 1, g, 0, &[], true), "numbered after the info service request");
}
/// Listeners added while connected hear of the next connection.
#[no_mangle]
pub extern "C" fn h_c28_late() {
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    let (t, mut r) = mpsc::channel::<()>(1);
    now(m.add_on_connect(t));
    wait(60_000);
    sym::check(r.try_recv() == Err(mpsc::error::TryRecvError::Empty), "no notification of the connection that exists");
    deliver(0, disc_req(&c));
    settle();
    sym::check(r.try_recv() == Err(mpsc::error::TryRecvError::Empty), "no notification before the connection");
    let d = Conn::any();
    deliver(0, d.response(0));
    settle();
    sym::check(r.try_recv().is_ok(), "notified of the new connection");
    sym::reach("late listener");
}
/// The enabling request cannot be sent: connected again instead of going on without it.
#[no_mangle]
pub extern "C" fn h_c28_not_enabled() {
    // on the first or a later connection, once or several times
    let k = sym::case(4);
    let w = Who::new(true);
    let m = w.monitor();
    let (t, mut r) = mpsc::channel::<()>(1);
    now(m.add_on_connect(t));
    let mut i = 0;
    while i < k >> 1 {
        let c = Conn::any();
        deliver(0, c.response(0));
        settle();
        sym::check(now(m.is_connected()) && r.try_recv().is_ok(), "connected");
        deliver(0, disc_req(&c));
        settle();
        i += 1;
    }
    taken();
    let mut i = 0;
    while i < k & 1 {
        world().send_fail = 1;
        deliver(0, Conn::any().response(0));
        settle();
        let mut s = taken();
        if count(&s, 0x0205) == 0 { wait(10_000); s = taken(); }
        sym::check(count(&s, 0x0205) == 1 && count(&s, 0x0424) == 0, "the connection is requested again");
        i += 1;
    }
    let c = Conn::any();
    world().send_fail = 1;
    deliver(0, c.response(0));
    settle();
    sym::check(!now(m.is_connected()) && r.try_recv().is_err(), "not connected without the info service");
    let mut s = taken();
    if count(&s, 0x0205) == 0 { wait(10_000); s = taken(); }
    sym::check(count(&s, 0x0205) == 1 && count(&s, 0x0424) == 0, "the connection is requested again");
    let d = Conn::any();
    deliver(0, d.response(0));
    settle();
    let s = taken();
    let q = of(&s, 0x0424);
    sym::check(q.len() == 1 && eq(q[0], &enable(&d)), "the info service of the new channel is enabled");
    sym::check(r.try_recv().is_ok(), "the listener is notified");
    usable_seq(&w, &d);
    sym::reach("retried");
}
/// A listener added while the connection is being made is notified of it, or of the next one.
#[no_mangle]
pub extern "C" fn h_c28_meanwhile() {
    let k = sym::case(3);
    let w = Who::new(true);
    let m = w.monitor();
    let (t0, mut r0) = mpsc::channel::<()>(2);
    now(m.add_on_connect(t0));
    taken();
    let (t, mut r) = mpsc::channel::<()>(2);
    let c = Conn::any();
    // held up somewhere on the way, for as long as it takes to add a listener
    if k == 0 { world().after = 1; } else { world().preempt = sym::tier(2, 4); }
    deliver(0, c.response(0));
    let n = sym::range(1, sym::tier(3, 5));
    let mut i = 0;
    while i < n { tokio::task::run(0); i += 1; }
    if k == 2 { world().after = 1; }
    let mut f = op(m.add_on_connect(t));
    let mut done = false;
    let mut i = 0;
    while i < 6 && !done { done = poll(f.as_mut()).is_ready(); tokio::task::run(0); i += 1; }
    world().preempt = 0;
    world().after = 0;
    sym::check(done || drive(&mut f).is_some(), "a listener can be added at any time");
    drop(f);
    settle();
    let s = taken();
    sym::check(count(&s, 0x0424) == 1 && eq(&s[0], &enable(&c)) && now(m.is_connected()), "connected, the info service enabled once");
    sym::check(r0.try_recv().is_ok() && r0.try_recv().is_err(), "a listener is notified once per connection");
    let first = r.try_recv().is_ok();
    if first { sym::reach("notified of this connection"); } else { sym::reach("too late for this connection"); }
    sym::check(r.try_recv() == Err(mpsc::error::TryRecvError::Empty), "at most once for each connection");
    deliver(0, disc_req(&c));
    settle();
    taken();
    let d = Conn::any();
    deliver(0, d.response(0));
    settle();
    let s = taken();
    sym::check(count(&s, 0x0424) == 1 && eq(&s[0], &enable(&d)), "the info service of the new channel is enabled once, with number 0");
    sym::check(r0.try_recv().is_ok() && r.try_recv().is_ok(), "every listener is notified of the next connection");
    sym::check(r.try_recv() == Err(mpsc::error::TryRecvError::Empty), "at most once for each connection");
    sym::reach("meanwhile");
}
/// A listener that asks when it is notified finds the monitor connected and its requests sent, however the tasks interleave.
#[no_mangle]
pub extern "C" fn h_c28_seen() {
    let k = sym::case(2);
    let w = Who::new(true);
    let m = w.monitor();
    let (t, mut r) = mpsc::channel::<()>(1);
    now(m.add_on_connect(t));
    taken();
    let mut c = Conn::any();
    if k == 1 {
        deliver(0, c.response(0));
        settle();
        sym::check(r.try_recv().is_ok(), "notified");
        deliver(0, disc_req(&c));
        settle();
        taken();
        c = Conn::any();
    }
    world().preempt = sym::tier(3, 5);
    let mut f = op(async {
        r.recv().await;
        let seen = m.is_connected().await;
        (seen, m.solecitate_group_read(KnxAddress::group_1_level(7)).await.is_ok())
    });
    deliver(0, c.response(0));
    let mut i = 0;
    let mut done = None;
    while i < 8 && done.is_none() {
        if let std::task::Poll::Ready(x) = poll(f.as_mut()) { done = Some(x); break; }
        tokio::task::run(0);
        i += 1;
    }
    world().preempt = 0;
    if done.is_none() { done = drive(&mut f); }
    match done {
        Some((seen, sent)) => { sym::check(seen, "connected when a listener is notified"); sym::check(sent, "requests can be sent when a listener is notified"); }
        None => sym::check(false, "the listener is notified"),
    }
    let s = taken();
    let q = of(&s, 0x0420);
    sym::check(count(&s, 0x0424) == 1 && eq(&s[0], &enable(&c)) && q.len() == 1 && is_request(q[0], c.ch, 1, 7, 0, &[], true), "the info service is enabled before anything else");
    sym::reach("seen");
}
/// A refused connection notifies nobody.
#[no_mangle]
pub extern "C" fn h_c28_refused() {
    let w = Who::new(true);
    let m = w.monitor();
    let (t, mut r) = mpsc::channel::<()>(1);
    now(m.add_on_connect(t));
    taken();
    let st = sym::u8();
    sym::assume(st != 0);
    deliver(0, Conn::any().response(st));
    settle();
    sym::check(r.try_recv().is_err() && taken().is_empty() && !now(m.is_connected()), "nobody is notified, nothing is enabled");
    sym::reach("refused");
}
/// A bad address is an error.
#[no_mangle]
pub extern "C" fn h_c28_address() {
    let k = sym::case(3);
    let r = now(UdpMonitor::connect(["", "not an address", "192.0.2.1"][k]));
    sym::check(r.is_err(), "an address that cannot be resolved is an error");
    sym::reach("address");
}
