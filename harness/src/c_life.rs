//! C33 dropped clients, C34 abandoned operations.
use crate::net::*;
use crate::sym;
use crate::util::*;

// ---------------------------------------------------------------- C33
/// From now on nothing at all may be sent, whatever arrives and however long it takes.
fn silent(c: &Conn) {
    let mut i = 0;
    while i < 6 {
        wait(60_000);
        match i {
            0 => deliver(0, tunnel(c.ch, 77, &ldata(IND, 0xbc, 1, 2, 2, &[3]))),
            1 => deliver(0, disc_req(c)),
            2 => deliver(0, c.response(0)),
            3 => deliver(0, state_resp(c.ch, 0x21)),
            4 => push(0, In::Error),
            _ => {}
        }
        settle();
        i += 1;
    }
    sym::check(taken().is_empty(), "nothing is sent once the task of a dropped client has ended");
}
/// Dropped at once, after traffic, with unread messages, after a reconnection or an abandoned operation.
#[no_mangle]
pub extern "C" fn h_c33_dropped() {
    let k = sym::case(10);
    let monitor = k & 1 == 1;
    let mut c = Conn::any();
    let w = Who::connected(monitor, &c);
    let first = sym::u8();
    match k >> 1 {
        0 => {}
        // messages nobody read
        1 => { let mut i = 0; while i < 3 { deliver(0, tunnel(c.ch, first.wrapping_sub(3).wrapping_add(i), &ldata(IND, 0xbc, 1, 2, 2, &[3]))); i += 1; } settle(); }
        // a later connection
        2 => {
            deliver(0, disc_req(&c));
            settle();
            c = Conn::any();
            deliver(0, c.response(0));
            settle();
        }
        // a completed operation
        3 => {
            let mut f = w.write(KnxAddress::group_1_level(5), vec![1], true);
            if drive(&mut f).is_none() {
                deliver(0, tunnel(c.ch, first.wrapping_sub(1), &ldata(CON, 0xbc, 1, 5, 2, &[])));
                drive(&mut f);
            }
        }
        // an abandoned one
        _ => match &w {
            Who::C(x) => { let mut f = op(x.read_group_address_value(KnxAddress::group_1_level(5))); drive(&mut f); }
            Who::M(m) => { let mut f = op(m.next_msg()); drive(&mut f); }
        },
    }
    taken();
    drop(w);
    settle();
    // heartbeats may go on until the drop is noticed
    if sym::bool() { wait(60_000); let s = taken(); sym::check(count(&s, 0x0207) == s.len(), "nothing but heartbeats before the next message"); }
    // nor does anything that is no bus message change this
    let (x, y) = (sym::u8(), sym::u8());
    match sym::split(sym::below(5) as u64) {
        0 => {}
        1 => deliver(0, tunnel(c.ch, first.wrapping_add(1), &[0x29, 9, x])),
        2 => deliver(0, vec![6, 0x10, 4, 0x21, 0, 10, 4, x, y, 0]),
        3 => deliver(0, feature_resp(c.ch, first.wrapping_add(1))),
        _ => deliver(0, vec![6, 0x10, 4, 0x20, 0, 30, 4, x, y]),
    }
    settle();
    let s = taken();
    sym::check(s.len() <= 1 && count(&s, 0x0421) == s.len(), "nothing but an acknowledgement");
    let code = sym::u8();
    let (src, dst, v) = (sym::u16(), sym::u16(), sym::u8());
    let (ch, apci) = (sym::u8(), sym::below(4));
    let mut e = ldata(code, 0xbc, src, dst, apci, &[v]);
    match sym::split(sym::below(3) as u64) {
        0 => {}
        1 => { e = ldata(code, 0x3c, src, dst, apci, &[v; 30]); }
        _ => { let t: Vec<u8> = e.split_off(2); e[1] = 3; e.extend_from_slice(&[3, 1, v]); e.extend_from_slice(&t); }
    }
    deliver(0, tunnel(ch, first, &e));
    settle();
    let s = taken();
    sym::check(s.len() <= 1 && (s.is_empty() || eq(&s[0], &ack(ch, first))), "at most the acknowledgement of the message that ended it");
    silent(&c);
    sym::reach("dropped");
}
/// Dropped while the connection is being set up or re-established: a connection made later ends with its first message.
#[no_mangle]
pub extern "C" fn h_c33_connecting() {
    let k = sym::case(4);
    let monitor = k & 1 == 1;
    let mut c = Conn::any();
    let w = if k & 2 == 0 { Who::new(monitor) } else {
        let w = Who::connected(monitor, &c);
        deliver(0, disc_req(&c));
        settle();
        c = Conn::any();
        w
    };
    taken();
    drop(w);
    deliver(0, c.response(0));
    settle();
    taken();
    let seq = sym::u8();
    deliver(0, tunnel(c.ch, seq, &ldata(IND, 0xbc, 1, 2, 2, &[3])));
    settle();
    let s = taken();
    sym::check(s.len() <= 1 && (s.is_empty() || eq(&s[0], &ack(c.ch, seq))), "at most the acknowledgement of the message that ended it");
    silent(&c);
    sym::reach("dropped while connecting");
}

// ---------------------------------------------------------------- C34
fn any_op<'a>(w: &'a Who, k: usize) -> Op<'a, ()> {
    let a = KnxAddress::group_1_level(7);
    match (w, k) {
        (Who::C(c), 0) => op(async move { let _ = c.read_group_address_value(a).await; }),
        (Who::C(c), 1) => op(async move { let _ = c.write_group_address_value(a, vec![1, 2], false).await; }),
        (Who::C(c), 2) => op(async move { let _ = c.get_connection_status().await; }),
        (Who::C(c), 3) => op(async move { let _ = c.flush().await; }),
        (Who::M(m), 0) => op(async move { let _ = m.next_msg().await; }),
        (Who::M(m), 1) => op(async move { let _ = m.write_group_address_value(a, vec![1, 2], false).await; }),
        (Who::M(m), 2) => op(async move { let _ = m.solecitate_group_read(a).await; }),
        (Who::M(m), _) => op(async move { m.is_connected().await; }),
        (Who::C(c), _) => op(async move { let _ = c.flush().await; }),
    }
}
/// Number of bus requests among the datagrams sent; each must carry the next number on the channel.
fn numbered(s: &[Vec<u8>], c: &Conn, next: &mut u8) {
    for x in of(s, 0x0420) {
        sym::check(x[7] == c.ch && x[8] == *next, "numbers stay consecutive");
        *next = next.wrapping_add(1);
    }
}
/// Every operation, dropped at any of its suspension points (and any await point within the bound),
/// with or without its answer on the way: the client then works as if it had never been started.
#[no_mangle]
pub extern "C" fn h_c34_abandoned() {
    let k = sym::case(8);
    let monitor = k & 1 == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let mut next = w.seq0();
    let rounds = sym::tier(1, 2);
    let mut r = 0;
    while r < rounds {
        let mut f = any_op(&w, if r == 0 { k >> 1 } else { sym::split(sym::below(4) as u64) as usize });
        world().preempt = 2;
        let polls = sym::range(0, 3);
        let mut i = 0;
        let mut done = false;
        let settled = sym::bool();
        while i < polls && !done { if poll(f.as_mut()).is_ready() { done = true; } else if settled { settle(); } i += 1; }
        // an answer may be on its way
        match sym::split(sym::below(4) as u64) {
            0 => {}
            1 => deliver(0, tunnel(c.ch, 100 + r as u8, &ldata(IND, 0xbc, 1, 7, 1, &[3]))),
            2 => deliver(0, tunnel(c.ch, 100 + r as u8, &ldata(CON, 0xbc, 1, 7, 2, &[]))),
            _ => deliver(0, state_resp(c.ch, 0)),
        }
        if !settled { settle(); }
        if sym::bool() && !done { let _ = poll(f.as_mut()); }
        drop(f);
        world().preempt = 0;
        r += 1;
    }
    settle();
    let s = taken();
    numbered(&s, &c, &mut next);
    sym::check(count(&s, 0x0205) == 0, "the connection is kept");
    usable(&w, &c, next);
    sym::reach("abandoned");
}
/// Every operation works, with its own result.
fn usable(w: &Who, c: &Conn, mut next: u8) {
    let (a, g) = group();
    let v = sym::bytes(2);
    match w {
        Who::C(x) => {
            let mut f = op(x.read_group_address_value(a));
            sym::check(drive(&mut f).is_none(), "a read waits for its answer");
            let s = taken();
            sym::check(s.len() == 1 && is_request(&s[0], c.ch, next, g, 0, &[], true), "a read is sent");
            next = next.wrapping_add(1);
            deliver(0, tunnel(c.ch, 201, &ldata(IND, 0xbc, 1, g, 1, &v)));
            match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y, &v), "a read returns its value"), _ => sym::check(false, "a read returns its value") }
            drop(f);
            taken();
            let e = sym::u8();
            let mut f = op(x.write_group_address_value(KnxAddress::group_1_level(g), v.clone(), false));
            sym::check(drive(&mut f).is_none(), "a write waits for its confirmation");
            let s = taken();
            sym::check(s.len() == 1 && is_request(&s[0], c.ch, next, g, 2, &v, false), "a write is sent");
            deliver(0, tunnel(c.ch, 202, &ldata(CON, e, 1, g, 2, &[])));
            match drive(&mut f) { Some(y) => sym::check(y.is_ok() == (e & 1 == 0), "a write has the result of its confirmation"), _ => sym::check(false, "a write has the result of its confirmation") }
            drop(f);
            taken();
            let mut f = op(x.get_connection_status());
            sym::check(drive(&mut f).is_none(), "a status query waits for its answer");
            sym::check(eq(&taken()[0], &c.heartbeat()), "a status query is sent");
            deliver(0, state_resp(c.ch, 0));
            match drive(&mut f) { Some(Ok(y)) => sym::check(y.status == 0, "a status query has its answer"), _ => sym::check(false, "a status query has its answer") }
        }
        Who::M(m) => {
            // what arrived for an abandoned reader is still there, or was delivered; then new messages follow
            let mut old = 0;
            loop {
                let mut f = op(m.next_msg());
                match drive(&mut f) { Some(_) => old += 1, None => break }
            }
            sym::check(old <= 2, "no message twice");
            let mut f = op(m.next_msg());
            sym::check(drive(&mut f).is_none(), "a reader waits");
            deliver(0, tunnel(c.ch, 201, &ldata(IND, 0xbc, 1, g, 1, &v)));
            match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y.value, &v) && y.l_data.dest == g, "a reader gets the message"), _ => sym::check(false, "a reader gets the message") }
            drop(f);
            taken();
            sym::check(now(m.solecitate_group_read(a)).is_ok(), "a read request can be sent");
            sym::check(now(m.write_group_address_value(KnxAddress::group_1_level(g), v.clone(), false)).is_ok(), "a write can be sent");
            let s = taken();
            sym::check(s.len() == 2 && is_request(&s[0], c.ch, next, g, 0, &[], true) && is_request(&s[1], c.ch, next.wrapping_add(1), g, 2, &v, false), "both are sent");
            sym::check(now(m.is_connected()), "still connected");
        }
    }
    taken();
    let mut f = w.disconnect();
    sym::check(drive(&mut f).is_none(), "a disconnect waits for its answer");
    sym::check(eq(&taken()[0], &c.disconnect()), "a disconnect is requested");
    deliver(0, disc_resp(c.ch, 0));
    sym::check(matches!(drive(&mut f), Some(Ok(_))), "a disconnect succeeds");
}
/// An abandoned disconnect: asked again, or answered late.
#[no_mangle]
pub extern "C" fn h_c34_disconnect() {
    let k = sym::case(4);
    let (monitor, late) = (k & 1 == 1, k & 2 != 0);
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let mut f = w.disconnect();
    world().preempt = 2;
    let polls = sym::range(0, 3);
    let mut i = 0;
    while i < polls { if poll(f.as_mut()).is_ready() { break; } i += 1; }
    drop(f);
    world().preempt = 0;
    settle();
    let s = taken();
    sym::check(s.len() <= 1 && s.len() == count(&s, 0x0209), "at most one request");
    if late && s.len() == 1 {
        // the answer still ends the connection for good
        let st = sym::u8();
        deliver(0, disc_resp(c.ch, st));
        settle();
        sym::check(taken().is_empty(), "nothing is sent");
        wait(60_000);
        sym::check(taken().is_empty(), "nothing is sent");
        let mut f = w.write(KnxAddress::group_1_level(1), vec![1], true);
        sym::check(drive(&mut f) == Some(false), "the client is disconnected");
        sym::reach("answered late");
    } else {
        usable(&w, &c, w.seq0());
        sym::reach("asked again");
    }
}
