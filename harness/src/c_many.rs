//! Long lives: one long history per property, each with the same symbolic choices throughout, because
//! counters, capacities and limits only show after many messages, operations, connections or minutes.
use crate::net::*;
use crate::sym;
use crate::util::*;

/// Something that is neither an answer for `g` nor disturbs the connection; does it take an acknowledgement?
fn noise(c: &Conn, i: usize, g: u16, v: u8) -> (Vec<u8>, bool) {
    let seq = i as u8;
    let o = g ^ 1;
    match i % 13 {
        0 => (tunnel(c.ch, seq, &ldata(IND, 0xbc, 1, o, 2, &[v])), true),
        1 => (tunnel(c.ch, seq, &ldata(CON, 0xbc, 1, o, 2, &[v])), true),
        2 => (state_resp(c.ch, 0), false),
        3 => (feature_resp(c.ch, seq), true),
        4 => (vec![6, 0x10, 4, 0x21, 0, 10, 4, c.ch, seq, 0], false),
        5 => (vec![6, 0x10, 9, v, 0, 6], false),
        6 => (tunnel(c.ch, seq, &[0x29, 9, v]), true),
        7 => (tunnel(c.ch, seq, &ldata(IND, 0xbc, 1, g, 0, &[])), true),
        8 => (vec![v; 3], false),
        // with additional information, as a bus monitor indication, long, refused
        9 => (tunnel(c.ch, seq, &[0x29, 7, 3, 1, v, 1, 2, v, v, 0xbc, 0xe0, 0x11, 1, (o >> 8) as u8, o as u8, 2, 0, 0x80, v]), true),
        10 => (tunnel(c.ch, seq, &[0x2b, 3, 3, 1, v, 0xbc, 0xe0, 0x11, 1, (g >> 8) as u8, g as u8, 2, 0, 0x80, v]), true),
        11 => (tunnel(c.ch, seq, &ldata(IND, 0x3c, 1, o, 2, &[v; 120])), true),
        _ => (tunnel(c.ch, seq, &ldata(CON, 0xbd, 1, o, 2, &[v])), true),
    }
}
fn value_of(c: &Conn, seq: u8, g: u16, v: u8) -> Vec<u8> { tunnel(c.ch, seq, &ldata(IND, 0xbc, 1, g, 1, &[v])) }
fn confirmation(c: &Conn, seq: u8, g: u16, c1: u8) -> Vec<u8> { tunnel(c.ch, seq, &ldata(CON, c1, 1, g, 2, &[])) }

/// Several times around the sequence numbers, read or not: one acknowledgement each.
#[no_mangle]
pub extern "C" fn h_c18_many() {
    let k = sym::case(4);
    let (monitor, reading) = (k & 1 == 1, k & 2 != 0);
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let (ch, v) = (sym::u8(), sym::u8());
    let mut i = 0usize;
    while i < sym::tier(600, 1500) {
        // every seventh request is sent twice
        let mut k = 0;
        while k < if i % 7 == 0 { 2 } else { 1 } {
            deliver(0, if i % 5 == 4 { feature_resp(ch, i as u8) } else { tunnel(ch, i as u8, &ldata(IND, 0xbc, 1, 7, 2, &[v])) });
            settle();
            let s = taken();
            sym::check(s.len() == 1 && eq(&s[0], &ack(ch, i as u8)), "one acknowledgement for each request");
            k += 1;
        }
        if reading { if let Who::M(m) = &w { let mut f = op(m.next_msg()); drive(&mut f); } else if i % 50 == 0 {
            let mut f = w.ask(KnxAddress::group_1_level(9));
            drive(&mut f);
            deliver(0, value_of(&c, i as u8 ^ 0x80, 9, 1));
            drive(&mut f);
            taken();
        } }
        i += 1;
    }
    sym::reach("many requests");
}
/// The answer comes after hundreds of other messages.
#[no_mangle]
pub extern "C" fn h_c20_many() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let v = sym::bytes(2);
    let mut round = 0u8;
    while round < sym::tier(2, 4) as u8 {
        let g = 0x1234 + round as u16;
        let mut f = op(w.client().read_group_address_value(KnxAddress::group_1_level(g)));
        sym::check(drive(&mut f).is_none(), "the answer comes after the request");
        let s = taken();
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, round, g, 0, &[], true), "one group value read for the address");
        let mut i = 0;
        while i < 330 {
            let (d, _) = noise(&c, i, g, v[0]);
            deliver(0, d);
            // one by one, or several at once
            if i % 11 < 6 { sym::check(drive(&mut f).is_none(), "no other message is the answer"); }
            if i % 9 == 0 { world().now += 200; }
            i += 1;
        }
        sym::check(drive(&mut f).is_none(), "no other message is the answer");
        deliver(0, value_of(&c, 251, g, v[1]));
        match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y, &[v[1]]), "the value received"), _ => sym::check(false, "the answer completes the read, however many messages came before") }
        drop(f);
        taken();
        round += 1;
    }
    sym::reach("answered");
}
/// Hundreds of reads, one after the other.
#[no_mangle]
pub extern "C" fn h_c20_often() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let v = sym::u8();
    let mut i = 0usize;
    while i < sym::tier(300, 700) {
        let g = 1 + (i as u16) % 5;
        let mut f = op(w.client().read_group_address_value(KnxAddress::group_1_level(g)));
        drive(&mut f);
        let s = taken();
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, i as u8, g, 0, &[], true), "one group value read for the address");
        if i % 40 == 39 {
            world().now += 10_000;
            sym::check(matches!(drive(&mut f), Some(Err(_))), "gives up ten seconds after the request");
        } else {
            let x = v ^ i as u8;
            deliver(0, value_of(&c, i as u8, g, x));
            match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y, &[x]), "the value received"), _ => sym::check(false, "every read has its answer") }
        }
        taken();
        i += 1;
    }
    sym::reach("reads");
}
/// The confirmation comes after hundreds of other messages.
#[no_mangle]
pub extern "C" fn h_c21_many() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let v = sym::bytes(2);
    let mut round = 0u8;
    while round < 2 {
        let g = 0x1234 + round as u16;
        let mut f = op(w.client().write_group_address_value(KnxAddress::group_1_level(g), vec![v[0]], false));
        sym::check(drive(&mut f).is_none(), "the confirmation comes after the request");
        let s = taken();
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, round, g, 2, &[v[0]], false), "one group value write");
        let mut i = 0;
        while i < 330 {
            let (d, _) = noise(&c, i, g, v[0]);
            deliver(0, d);
            if i % 11 < 6 { sym::check(drive(&mut f).is_none(), "no other message confirms"); }
            if i % 9 == 0 { world().now += 200; }
            i += 1;
        }
        sym::check(drive(&mut f).is_none(), "no other message confirms");
        deliver(0, confirmation(&c, 251, g, v[1]));
        match drive(&mut f) { Some(r) => sym::check(r.is_ok() == (v[1] & 1 == 0), "the result of the confirmation"), None => sym::check(false, "the confirmation completes the write, however many messages came before") }
        drop(f);
        taken();
        round += 1;
    }
    sym::reach("confirmed");
}
/// Hundreds of writes, one after the other.
#[no_mangle]
pub extern "C" fn h_c21_often() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let (v, c1) = (sym::u8(), sym::u8());
    let mut i = 0usize;
    while i < sym::tier(300, 700) {
        let g = 1 + (i as u16) % 5;
        let small = i % 3 == 0;
        let mut f = w.write(KnxAddress::group_1_level(g), vec![v], small);
        let r = drive(&mut f);
        let s = taken();
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, w.seq0().wrapping_add(i as u8), g, 2, &[v], small), "one group value write");
        if monitor { sym::check(r == Some(true), "sent"); }
        else if i % 40 == 39 {
            world().now += 10_000;
            sym::check(drive(&mut f) == Some(false), "gives up ten seconds after the request");
        } else {
            deliver(0, confirmation(&c, i as u8, g, if i % 2 == 0 { c1 } else { 0xbc }));
            sym::check(drive(&mut f) == Some(i % 2 != 0 || c1 & 1 == 0), "the result of the confirmation");
        }
        taken();
        i += 1;
    }
    sym::reach("writes");
}
/// However many values of the group came before, none is the answer to a later read.
#[no_mangle]
pub extern "C" fn h_c20_unread() {
    let n = [1usize, 2, 20, 50, 65, 99, 100, 101, 150, 300][sym::case(10)];
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let v = sym::bytes(2);
    let mut i = 0;
    while i < n { deliver(0, value_of(&c, i as u8, 7, v[0])); if i % 7 == 6 { settle(); } i += 1; }
    // all of it received, or some still on its way
    settle();
    let mut round = 0;
    while round < 2 {
        taken();
        let mut f = op(w.client().read_group_address_value(KnxAddress::group_1_level(7)));
        sym::check(drive(&mut f).is_none(), "an earlier value is not the answer");
        let s = taken();
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, round, 7, 0, &[], true), "one group value read for the address");
        deliver(0, value_of(&c, 200 - round, 7, v[1] ^ round));
        match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y, &[v[1] ^ round]), "the value received"), _ => sym::check(false, "the answer completes the read") }
        round += 1;
    }
    sym::reach("unread");
}
/// However many confirmations came before, none confirms a later write.
#[no_mangle]
pub extern "C" fn h_c21_unread() {
    let n = [1usize, 2, 20, 50, 65, 99, 100, 101, 150, 300][sym::case(10)];
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let e = sym::bytes(2);
    let mut i = 0;
    while i < n { deliver(0, confirmation(&c, i as u8, 7, e[0])); if i % 7 == 6 { settle(); } i += 1; }
    settle();
    let mut round = 0;
    while round < 2 {
        taken();
        let mut f = w.write(KnxAddress::group_1_level(7), vec![e[1], 1], false);
        sym::check(drive(&mut f).is_none(), "an earlier confirmation does not confirm");
        let s = taken();
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, round, 7, 2, &[e[1], 1], false), "one group value write");
        deliver(0, confirmation(&c, 200 - round, 7, e[1]));
        sym::check(drive(&mut f) == Some(e[1] & 1 == 0), "the result of the confirmation");
        round += 1;
    }
    sym::reach("unread");
}
/// Hundreds of messages, read as they come or in lots.
#[no_mangle]
pub extern "C" fn h_c22_many() {
    let lot = [1usize, 7, 64][sym::case(3)];
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    let v = sym::u8();
    let mut i = 0usize;
    while i < sym::tier(640, 1280) {
        let mut k = 0;
        while k < lot {
            let d = tunnel(c.ch, (i + k) as u8, &ldata(IND, 0xbc, 1, (i + k) as u16, 2, &[v]));
            if (i + k) % 3 == 0 { deliver(0, d.clone()); }
            deliver(0, d);
            k += 1;
        }
        if i % 2 == 0 { settle(); }
        let mut k = 0;
        while k < lot {
            let mut f = op(m.next_msg());
            match drive(&mut f) { Some(Ok(r)) => sym::check(r.l_data.dest == (i + k) as u16 && eq(&r.value, &[v]), "in order, each once"), _ => sym::check(false, "every message is delivered") }
            k += 1;
        }
        { let mut f = op(m.next_msg()); sym::check(drive(&mut f).is_none(), "nothing twice"); }
        i += lot;
    }
    sym::reach("messages");
}
/// Days of heartbeats.
#[no_mangle]
pub extern "C" fn h_c24_many() {
    let k = sym::case(4);
    let c = Conn::any();
    let w = Who::connected(k & 1 == 1, &c);
    world().sym_select = false;
    let mut i = 0usize;
    while i < sym::tier(400, 3000) {
        wait(60_000);
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &c.heartbeat()), "one heartbeat a minute");
        if k & 2 == 0 { deliver(0, state_resp(c.ch, 0)); settle(); sym::check(taken().is_empty(), "nothing else"); }
        i += 1;
    }
    sym::reach("hours");
}
/// A disconnect among heavy traffic.
#[no_mangle]
pub extern "C" fn h_c25_many() {
    let k = sym::case(4);
    let c = Conn::any();
    let w = Who::connected(k & 1 == 1, &c);
    let (v, st) = (sym::u8(), sym::u8());
    let mut i = 0;
    // messages nobody reads
    while k & 2 != 0 && i < 150 { deliver(0, noise(&c, i, 7, v).0); if i % 10 == 0 { settle(); } i += 1; }
    settle();
    taken();
    let mut f = w.disconnect();
    sym::check(drive(&mut f).is_none(), "waits for the response");
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &c.disconnect()), "one disconnect request for the channel and endpoint of the connection");
    let mut i = 0;
    while i < 180 {
        let (d, a) = noise(&c, i, 7, v);
        deliver(0, d);
        sym::check(drive(&mut f).is_none(), "other traffic does not complete it");
        sym::check(taken().len() == a as usize, "requests are acknowledged, nothing else is sent");
        i += 1;
    }
    deliver(0, disc_resp(c.ch, st));
    match drive(&mut f) {
        Some(Ok(x)) => sym::check(x.is_none() || x == Some(st), "status of the response"),
        Some(Err(_)) => sym::check(st != 0, "a successful disconnect is reported as such"),
        None => sym::check(false, "completes with the response"),
    }
    taken();
    wait(600_000);
    sym::check(taken().is_empty(), "nothing is sent afterwards");
    sym::reach("disconnected");
}
/// Connection after connection.
#[no_mangle]
pub extern "C" fn h_c26_many() {
    let k = sym::case(8);
    let monitor = k & 1 == 1;
    let mut c = Conn::any();
    let w = Who::connected(monitor, &c);
    let st = sym::u8();
    sym::assume(st != 0);
    let v = sym::bytes(2);
    let mut i = 0usize;
    while i < sym::tier(25, 60) {
        let mut n = 0;
        while n < i % 3 {
            let mut f = w.write(KnxAddress::group_1_level(7), v.clone(), false);
            drive(&mut f);
            let s = taken();
            sym::check(s.len() == 1 && is_request(&s[0], c.ch, w.seq0() + n as u8, 7, 2, &v, false), "requests are sent on the established channel");
            if !monitor { deliver(0, confirmation(&c, 100 + n as u8, 7, 0xbc)); sym::check(drive(&mut f) == Some(true), "requests work on every connection"); }
            taken();
            n += 1;
        }
        match if k >> 1 == 3 { i % 3 } else { k >> 1 } {
            0 => deliver(0, disc_req(&c)),
            1 => deliver(0, state_resp(c.ch, st)),
            _ => push(0, In::Error),
        }
        settle();
        let mut s = taken();
        if count(&s, 0x0205) == 0 { wait(10_000); s = taken(); }
        sym::check(count(&s, 0x0205) == 1, "a new connection is requested");
        if let Who::M(m) = &w { sym::check(!now(m.is_connected()), "not connected in the meantime"); }
        c.ch = c.ch.wrapping_add(1);
        deliver(0, c.response(0));
        settle();
        if let Who::M(m) = &w { sym::check(now(m.is_connected()), "connected again"); }
        taken();
        i += 1;
    }
    sym::reach("connections");
}
/// Malformed datagrams without end.
#[no_mangle]
pub extern "C" fn h_c27_many() {
    let k = sym::case(4);
    let (monitor, connecting) = (k & 1 == 1, k & 2 != 0);
    let c = Conn::any();
    let w = if connecting { Who::new(monitor) } else { Who::connected(monitor, &c) };
    taken();
    let v = sym::bytes(12);
    let mut i = 0usize;
    while i < 300 {
        let mut d = match i % 6 {
            0 => v[..i % 12].to_vec(),
            1 => vec![6, 0x10, 4, 0x20, 0, 12, 4, c.ch, 1],
            2 => vec![6, 0x10, 2, 8, 0, 9, c.ch, 0],
            3 => vec![5, 0x10, 2, 9, 0, 16, c.ch, 0, 8, 1, 0, 0, 0, 0, 0, 0],
            4 => vec![6, 0x11, 4, 0x23, 0, 13, 4, c.ch, 0, 0, 8, 0, 1],
            _ => vec![6, 0x10, 2, 0x0a, 0, 8, c.ch],
        };
        // never one of the messages that mean something
        if i % 6 == 0 && d.len() > 2 { d[2] = 0x0f; }
        deliver(0, d);
        settle();
        sym::check(taken().is_empty(), "nothing is sent because of a malformed datagram");
        i += 1;
    }
    if connecting { deliver(0, c.response(0)); settle(); taken(); }
    deliver(0, tunnel(c.ch, 3, &ldata(IND, 0xbc, 1, 7, 2, &[v[0]])));
    settle();
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &ack(c.ch, 3)), "the next message is received as usual");
    if let Who::M(m) = &w {
        let mut f = op(m.next_msg());
        match drive(&mut f) { Some(Ok(r)) => sym::check(r.l_data.dest == 7 && eq(&r.value, &v[..1]), "the next message is received as usual"), _ => sym::check(false, "the next message is received as usual") }
    }
    sym::reach("malformed");
}
/// Many listeners, over many connections: some read always, some sometimes, some never, some go away.
#[no_mangle]
pub extern "C" fn h_c28_many() {
    let w = Who::new(true);
    let m = w.monitor();
    taken();
    let gone = sym::tier(4, 8).min(sym::range(0, 3));
    let mut rx: Vec<Option<mpsc::Receiver<()>>> = vec![];
    let mut i = 0;
    while i < 40 {
        let (t, r) = mpsc::channel(if i % 4 == 3 { 3 } else { 1 });
        now(m.add_on_connect(t));
        rx.push(Some(r));
        i += 1;
    }
    let mut c = Conn::any();
    let mut n = 0;
    while n < sym::tier(6, 20) {
        if n == gone { let mut i = 2; while i < 40 { rx[i] = None; i += 4; } }
        deliver(0, c.response(0));
        settle();
        let s = taken();
        sym::check(count(&s, 0x0424) == 1 && now(m.is_connected()), "connected");
        let mut i = 0;
        while i < rx.len() {
            if let Some(r) = &mut rx[i] {
                match i % 4 {
                    0 | 2 => sym::check(r.try_recv().is_ok() && r.try_recv().is_err(), "every listener is notified once per connection"),
                    3 => if n % 3 == 2 { let mut k = 0; while r.try_recv().is_ok() { k += 1; } sym::check(k == 3, "every listener is notified once per connection"); },
                    _ => {}
                }
            }
            i += 1;
        }
        deliver(0, disc_req(&c));
        settle();
        taken();
        c.ch = c.ch.wrapping_add(1);
        n += 1;
    }
    let mut i = 1;
    while i < 40 { if let Some(r) = &mut rx[i] { sym::check(r.try_recv().is_ok(), "a slow listener is still notified"); } i += 4; }
    sym::reach("listeners");
}
/// Many operations at once: each gets the result of its own request.
#[no_mangle]
pub extern "C" fn h_c30_many() {
    let n = sym::tier(12, 24);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let v = sym::u8();
    let x = w.client();
    let mut ops: Vec<Option<Op<'_, Option<Vec<u8>>>>> = vec![];
    let mut i = 0;
    while i < n {
        let a = KnxAddress::group_1_level(i as u16);
        ops.push(Some(if i % 2 == 0 { op(async move { x.read_group_address_value(a).await.ok() }) } else { op(async move { x.write_group_address_value(a, vec![v], false).await.ok().map(|_| vec![]) }) }));
        i += 1;
    }
    let mut open = n;
    let mut sent = 0u8;
    let mut rounds = 0;
    while open > 0 && rounds < 2 * n {
        let mut k = 0;
        while k < n {
            if let Some(f) = &mut ops[k] {
                if let Some(r) = drive(f) {
                    match r { Some(y) => sym::check(if k % 2 == 0 { eq(&y, &[v ^ k as u8]) } else { y.is_empty() }, "its own result"), None => sym::check(false, "every operation succeeds") }
                    ops[k] = None;
                    open -= 1;
                }
            }
            for s in taken() {
                if service(&s) != 0x0420 { continue; }
                sym::check(s[8] == sent, "numbered in the order sent");
                let g = be16(&s, 16);
                deliver(0, if g % 2 == 0 { value_of(&c, sent, g, v ^ g as u8) } else { confirmation(&c, sent, g, 0xbc) });
                settle();
                sent += 1;
            }
            k += 1;
        }
        rounds += 1;
    }
    sym::check(open == 0 && sent as usize == n, "every operation completes");
    sym::reach("operations");
}
/// Query after query.
#[no_mangle]
pub extern "C" fn h_c31_many() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let mut st = sym::u8();
    let mut i = 0usize;
    while i < sym::tier(80, 300) {
        let mut f = op(w.client().get_connection_status());
        sym::check(drive(&mut f).is_none(), "waits for the answer to its own request");
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &c.heartbeat()), "one connectionstate request for channel and endpoint of the connection");
        let mut k = 0;
        while k < i % 30 { if k % 13 != 2 { deliver(0, noise(&c, k, 7, st).0); sym::check(drive(&mut f).is_none(), "waits"); } k += 1; }
        taken();
        if i % 20 == 19 {
            world().now += 10_000;
            sym::check(matches!(drive(&mut f), Some(Err(_))), "fails ten seconds after the request");
        } else {
            deliver(0, state_resp(i as u8, 0));
            match drive(&mut f) { Some(Ok(r)) => sym::check(r.status == 0 && r.communication_channel_id == i as u8, "channel and status of the response"), _ => sym::check(false, "the response is returned") }
        }
        drop(f);
        // answers to heartbeats in between
        let mut k = 0;
        while k < i % 15 { deliver(0, state_resp(77, 0)); settle(); k += 1; }
        taken();
        i += 1;
    }
    let mut f = op(w.client().get_connection_status());
    drive(&mut f);
    deliver(0, state_resp(c.ch, st));
    match drive(&mut f) { Some(Ok(r)) => sym::check(r.status == st, "channel and status of the response"), _ => sym::check(false, "the response is returned") }
    st = 0;
    sym::reach(if st == 0 { "queries" } else { "" });
}
/// Dropped after a long life.
#[no_mangle]
pub extern "C" fn h_c33_many() {
    let k = sym::case(4);
    let (monitor, reading) = (k & 1 == 1, k & 2 != 0);
    let mut c = Conn::any();
    let w = Who::connected(monitor, &c);
    let v = sym::u8();
    let mut i = 0;
    while i < 250 {
        deliver(0, noise(&c, i, 7, v).0);
        settle();
        if reading && monitor && i % 9 == 0 { let mut f = op(w.monitor().next_msg()); drive(&mut f); }
        if i % 60 == 59 { deliver(0, disc_req(&c)); settle(); c.ch = c.ch.wrapping_add(1); deliver(0, c.response(0)); settle(); }
        if reading && i % 20 == 0 { let mut f = w.ask(KnxAddress::group_1_level(9)); drive(&mut f); }
        i += 1;
    }
    taken();
    drop(w);
    wait(60_000);
    let s = taken();
    sym::check(s.len() <= 1 && (s.is_empty() || eq(&s[0], &c.heartbeat())), "only heartbeats");
    deliver(0, tunnel(c.ch, 250, &ldata(IND, 0xbc, 1, 7, 2, &[v])));
    settle();
    let s = taken();
    sym::check(s.len() <= 1 && (s.is_empty() || eq(&s[0], &ack(c.ch, 250))), "nothing but the acknowledgement");
    let mut i = 0;
    while i < 20 {
        deliver(0, noise(&c, i, 7, v).0);
        wait(60_000);
        i += 1;
    }
    deliver(0, disc_req(&c));
    wait(600_000);
    sym::check(taken().is_empty(), "nothing is sent afterwards");
    sym::reach("dropped");
}
/// Operation after operation is abandoned.
#[no_mangle]
pub extern "C" fn h_c34_many() {
    let k = sym::case(8);
    let monitor = k & 1 == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let v = sym::bytes(2);
    let polls = 1 + sym::split(sym::bool() as u64);
    let mut next = w.seq0();
    let mut i = 0;
    while i < sym::tier(120, 300) {
        let mut f: Op<'_, ()> = match if k >> 1 == 3 { i % 3 } else { k >> 1 } {
            0 => { let g = w.ask(KnxAddress::group_1_level(7)); op(async move { g.await; }) }
            1 => { let g = w.write(KnxAddress::group_1_level(7), v.clone(), false); op(async move { g.await; }) }
            _ => match &w {
                Who::C(x) => op(async move { let _ = x.get_connection_status().await; }),
                Who::M(m) => op(async move { let _ = m.next_msg().await; }),
            },
        };
        let mut p = 0;
        while p < polls { let done = poll(f.as_mut()).is_ready(); settle(); if done { break; } p += 1; }
        drop(f);
        settle();
        for s in taken() {
            if service(&s) == 0x0420 { sym::check(s[7] == c.ch && s[8] == next, "numbers stay consecutive"); next = next.wrapping_add(1); }
            else { sym::check(eq(&s, &c.heartbeat()), "nothing else is sent"); }
        }
        i += 1;
    }
    let mut f = w.write(KnxAddress::group_1_level(9), v.clone(), false);
    let r = drive(&mut f);
    let s = taken();
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, next, 9, 2, &v, false), "a write is sent");
    if monitor { sym::check(r == Some(true), "a write can be sent"); }
    else { deliver(0, confirmation(&c, 200, 9, 0xbc)); sym::check(drive(&mut f) == Some(true), "a write is confirmed"); }
    drop(f);
    taken();
    match &w {
        Who::C(x) => {
            let mut f = op(x.read_group_address_value(KnxAddress::group_1_level(8)));
            drive(&mut f);
            deliver(0, value_of(&c, 201, 8, v[1]));
            match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y, &v[1..]), "a read returns its value"), _ => sym::check(false, "a read returns its value") }
            drop(f);
            let mut f = op(x.get_connection_status());
            drive(&mut f);
            deliver(0, state_resp(c.ch, 0));
            sym::check(matches!(drive(&mut f), Some(Ok(_))), "a status query has its answer");
        }
        Who::M(m) => {
            deliver(0, value_of(&c, 201, 8, v[1]));
            let mut f = op(m.next_msg());
            match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y.value, &v[1..]), "a reader gets the message"), _ => sym::check(false, "a reader gets the message") }
        }
    }
    taken();
    let mut f = w.disconnect();
    drive(&mut f);
    sym::check(eq(&taken()[0], &c.disconnect()), "a disconnect is sent");
    deliver(0, disc_resp(c.ch, 0));
    sym::check(matches!(drive(&mut f), Some(Ok(_))), "a disconnect has its answer");
    sym::reach("abandoned");
}
/// Hours of traffic of one kind, or of all, that nobody reads.
#[no_mangle]
pub extern "C" fn h_c32_many() {
    let k = sym::case(18);
    let (monitor, kind) = (k & 1 == 1, [0usize, 1, 2, 3, 99, 6, 9, 10, 11][k >> 1]);
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    world().sym_select = false;
    let v = sym::u8();
    let mut i = 0usize;
    while i < sym::tier(360, 1200) {
        let (d, a) = if kind == 99 { noise(&c, i, 7, v) } else {
            let (mut d, a) = noise(&c, kind, 7, v);
            if a { d[8] = i as u8; }
            (d, a)
        };
        deliver(0, d);
        wait(5_000);
        let s = taken();
        sym::check(count(&s, 0x0421) == a as usize, "every request is acknowledged");
        sym::check(count(&s, 0x0207) == (i % 12 == 11) as usize, "heartbeats go on");
        sym::check(s.len() == a as usize + (i % 12 == 11) as usize, "the connection is kept, nothing else is sent");
        i += 1;
    }
    let mut f = w.write(KnxAddress::group_1_level(9), vec![1, v], false);
    let r = drive(&mut f);
    let s = taken();
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, w.seq0(), 9, 2, &[1, v], false), "a write is sent");
    if monitor { sym::check(r == Some(true), "a write can be sent"); }
    else { sym::check(r.is_none(), "a write waits for its confirmation"); deliver(0, confirmation(&c, 251, 9, 0xbc)); sym::check(drive(&mut f) == Some(true), "a write is confirmed"); }
    drop(f);
    taken();
    if let Who::C(x) = &w {
        let mut f = op(x.read_group_address_value(KnxAddress::group_1_level(8)));
        sym::check(drive(&mut f).is_none(), "a read waits for its value");
        deliver(0, value_of(&c, 252, 8, v));
        match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y, &[v]), "a read returns its value"), _ => sym::check(false, "a read returns its value") }
        drop(f);
        let mut f = op(x.get_connection_status());
        sym::check(drive(&mut f).is_none(), "a status query waits for its answer");
        deliver(0, state_resp(c.ch, 0));
        sym::check(matches!(drive(&mut f), Some(Ok(_))), "a status query has its answer");
    }
    taken();
    let mut f = w.disconnect();
    sym::check(drive(&mut f).is_none(), "a disconnect waits for its response");
    sym::check(eq(&taken()[0], &c.disconnect()), "a disconnect is sent");
    deliver(0, disc_resp(c.ch, 0));
    sym::check(matches!(drive(&mut f), Some(Ok(_))), "a disconnect has its response");
    sym::reach("hours of traffic");
}
