//! Requests: C20 reads, C21 writes, C29 search, C30 concurrent requests, C31 connection status.
use crate::net::*;
use crate::sym;
use crate::util::*;

/// One message the gateway may send while a request is under way.
struct Msg { d: Vec<u8>, answer: Option<Vec<u8>>, confirm: Option<bool> }
fn any_msg(c: &Conn, seq: u8, g: u16) -> Msg { msg(c, seq, g, sym::split(sym::below(10) as u64)) }
fn msg(c: &Conn, seq: u8, g: u16, k: u64) -> Msg {
    let other = sym::u16();
    sym::assume(other != g);
    let src = sym::u16();
    let v = sym::bytes(2);
    let mut answer = None;
    let mut confirm = None;
    let d = match k {
        // group value write / response for the group
        0 => { let apci = if sym::bool() { 1 } else { 2 }; answer = Some(v.clone()); tunnel(c.ch, seq, &ldata(IND, 0xbc, src, g, apci, &v)) }
        1 => { answer = Some(vec![v[0] & 0x3f]); tunnel(c.ch, seq, &ldata_small(IND, 0x94, src, g, 1, v[0])) }
        // confirmations
        2 => { let c1 = v[0]; confirm = Some(c1 & 1 == 0); tunnel(c.ch, seq, &ldata(CON, c1, src, g, 2, &v)) }
        // other groups
        3 => tunnel(c.ch, seq, &ldata(IND, 0xbc, src, other, 2, &v)),
        4 => tunnel(c.ch, seq, &ldata(CON, 0xbc, src, other, 2, &v)),
        // somebody else reads the group
        5 => tunnel(c.ch, seq, &ldata(IND, 0xbc, src, g, 0, &[])),
        // acknowledgement, connection state, undecodable, unknown message code
        6 => vec![6, 0x10, 4, 0x21, 0, 10, 4, c.ch, v[0], 0],
        7 => state_resp(c.ch, 0),
        8 => { let mut x = ldata(IND, 0xbc, src, g, 2, &v); x.truncate(x.len() - 1); tunnel(c.ch, seq, &x) }
        _ => tunnel(c.ch, seq, &ldata(0x11, 0xbc, src, g, 2, &v)),
    };
    Msg { d, answer, confirm }
}

/// Additional information before a message: none, one, two or three.
fn infos(e: &mut Vec<u8>) {
    let x: &[u8] = [&[] as &[u8], &[6, 4, 1, 2, 3, 4], &[3, 1, 9, 4, 4, 1, 2, 3, 4], &[3, 1, 9, 8, 0, 0xfe, 2, 1, 2]][sym::split(sym::below(4) as u64) as usize];
    e[1] = x.len() as u8;
    for (i, y) in x.iter().enumerate() { e.insert(2 + i, *y); }
    if x.len() == 9 { e[4] = sym::u8(); e[10] = sym::u8(); sym::reach("additional information"); }
}
// ---------------------------------------------------------------- C20
#[no_mangle]
pub extern "C" fn h_c20_read() {
    let k = sym::case(10);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    // an earlier value of the group is not the answer
    let stale = sym::split(sym::bool() as u64) == 1;
    if stale { deliver(0, tunnel(c.ch, 200, &ldata(IND, 0xbc, 1, g, 2, &[7]))); settle(); taken(); sym::reach("stale value"); }
    let mut f = op(w.client().read_group_address_value(a));
    let r = drive(&mut f);
    let s = taken();
    sym::check(r.is_none(), "the answer comes after the request");
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, 0, g, 0, &[], true), "one group value read for the address");
    let mut n = 0;
    let mut t = 0u64;
    while n < sym::tier(3, 4) {
        let dt = sym::u16() as u64;
        sym::assume(t + dt < 10_000);
        t += dt;
        world().now += dt;
        let m = if n == 0 { msg(&c, 0, g, k as u64) } else { any_msg(&c, n as u8, g) };
        deliver(0, m.d);
        match drive(&mut f) {
            None => sym::check(m.answer.is_none(), "the first value of the group completes the read"),
            Some(r) => {
                match (r, m.answer) {
                    (Ok(x), Some(y)) => sym::check(eq(&x, &y), "the value received"),
                    (Ok(_), None) => sym::check(false, "no value of another message"),
                    (Err(_), _) => sym::check(false, "no error before ten seconds"),
                }
                sym::reach("answered");
                return;
            }
        }
        n += 1;
    }
    world().now += 9_999 - t;
    sym::check(drive(&mut f).is_none(), "waits ten seconds");
    world().now += 1;
    sym::check(matches!(drive(&mut f), Some(Err(_))), "gives up ten seconds after the request");
    sym::reach("timed out");
}
#[no_mangle]
pub extern "C" fn h_c20_value() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let mut f = op(w.client().read_group_address_value(a));
    drive(&mut f);
    let n = sym::range(1, sym::tier(14, 40));
    let v = sym::bytes(n);
    let apci = if sym::bool() { 1 } else { 2 };
    let mut e = ldata(IND, sym::u8(), sym::u16(), g, apci, &v);
    e[3] = 0x80 | sym::u8();
    deliver(0, tunnel(sym::u8(), sym::u8(), &e));
    match drive(&mut f) { Some(Ok(x)) => sym::check(eq(&x, &v), "the octets received"), _ => sym::check(false, "the value is returned") }
    sym::reach("value");
}
/// Values up to the longest frame, with additional information before the message.
#[no_mangle]
pub extern "C" fn h_c20_long() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let mut f = op(w.client().read_group_address_value(a));
    drive(&mut f);
    let n = sym::pick(&[14, 15, 16, 64, 127, 128, 200, 252, 253, 254]);
    let mut v = vec![0x5au8; n];
    v[0] = sym::u8();
    v[n / 2] = sym::u8();
    v[n - 1] = sym::u8();
    let mut e = ldata(IND, sym::u8(), sym::u16(), g, 1, &v);
    e[3] = 0x80 | sym::u8();
    infos(&mut e);
    deliver(0, tunnel(c.ch, 0, &e));
    match drive(&mut f) { Some(Ok(x)) => sym::check(eq(&x, &v), "the octets received"), _ => sym::check(false, "the value is returned") }
    sym::reach("long value");
}
/// A read the caller gave up: its late answer is not taken by the next one, which works as usual.
#[no_mangle]
pub extern "C" fn h_c20_abandoned() {
    let k = sym::case(3);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let (b, _) = group();
    {
        let mut f: Op<()> = match k { 0 => op(async { let _ = w.client().read_group_address_value(b).await; }), 1 => op(async { let _ = w.client().write_group_address_value(b, vec![1], true).await; }), _ => op(async { let _ = w.client().get_connection_status().await; }) };
        world().preempt = sym::tier(1, 2);
        let mut i = 0;
        while i < 3 { let _ = poll(f.as_mut()); i += 1; }
    }
    world().preempt = 0;
    settle();
    let n = count(&taken(), 0x0420);
    sym::check(n == 1 || k == 2 && n == 0, "one request");
    deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, 1, g, 1, &[7])));
    settle();
    let mut f = op(w.client().read_group_address_value(a));
    sym::check(drive(&mut f).is_none(), "the answer comes after the request");
    let s = taken();
    sym::check(count(&s, 0x0420) == 1 && is_request(of(&s, 0x0420)[0], c.ch, n as u8, g, 0, &[], true), "one group value read for the address");
    let v = sym::u8();
    deliver(0, tunnel(c.ch, 1, &ldata(IND, 0xbc, 1, g, 1, &[v])));
    match drive(&mut f) { Some(Ok(x)) => sym::check(eq(&x, &[v]), "the value received"), _ => sym::check(false, "the value is returned") }
    sym::reach("abandoned");
}
/// The connection is lost while the answer is awaited, and established again: no answer, an error after ten seconds at most;
/// an answer over the new connection counts.
#[no_mangle]
pub extern "C" fn h_c20_lost() {
    let k = sym::case(3);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let mut f = op(w.client().read_group_address_value(a));
    drive(&mut f);
    taken();
    match k { 0 => deliver(0, disc_req(&c)), 1 => push(0, In::Error), _ => deliver(0, disc_resp(c.ch, 0)) }
    let mut r = drive(&mut f);
    let d = Conn::any();
    if r.is_none() && k < 2 { deliver(0, d.response(0)); r = drive(&mut f); }
    let s = taken();
    sym::check(count(&s, 0x0420) == 0, "the request is not repeated");
    if r.is_none() { world().now += 10_000; r = drive(&mut f); }
    sym::check(matches!(r, Some(Err(_))), "no value without an answer");
    drop(f);
    if k < 2 {
        taken();
        let v = sym::u8();
        let mut f = op(w.client().read_group_address_value(KnxAddress::group_1_level(g)));
        sym::check(drive(&mut f).is_none(), "the answer comes after the request");
        let s = taken();
        let q = of(&s, 0x0420);
        sym::check(q.len() == 1 && is_request(q[0], d.ch, 0, g, 0, &[], true), "one group value read for the address, on the new connection");
        deliver(0, tunnel(d.ch, 1, &ldata(IND, 0xbc, 1, g, 1, &[v])));
        match drive(&mut f) { Some(Ok(x)) => sym::check(eq(&x, &[v]), "the value received"), _ => sym::check(false, "the value is returned") }
        sym::reach("read again");
    }
    sym::reach("lost");
}
#[no_mangle]
pub extern "C" fn h_c20_not_sent() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = if k == 0 { Who::new(false) } else { Who::connected(false, &c) };
    taken();
    if k == 1 { world().send_fail = 1; }
    let (a, _) = group();
    let mut f = op(w.client().read_group_address_value(a));
    let r = match drive(&mut f) { None => { world().now += 10_000; drive(&mut f) } r => r };
    sym::check(matches!(r, Some(Err(_))), "a request that cannot be sent is an error");
    sym::check(taken().is_empty(), "nothing is sent");
    sym::reach("error");
}
#[no_mangle]
pub extern "C" fn h_c20_kinds() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = any_group();
    let mut f = op(w.client().read_group_address_value(a));
    drive(&mut f);
    let s = taken();
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, 0, g, 0, &[], true), "one group value read for the address");
    let v = sym::u8();
    let h = sym::u16();
    deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, 1, h, 1, &[v])));
    match drive(&mut f) { Some(Ok(x)) => sym::check(g == h && eq(&x, &[v]), "the value of this group"), Some(Err(_)) => sym::check(false, "no error"), None => sym::check(g != h, "the first value of the group completes the read") }
    sym::reach("kinds");
}
/// Two reads one after the other: a late answer to the first is not taken for the second.
#[no_mangle]
pub extern "C" fn h_c20_sequence() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let (b, h) = group();
    let (x, y) = (sym::u8(), sym::u8());
    {
        let mut f = op(w.client().read_group_address_value(a));
        drive(&mut f);
        if k == 1 { world().now += 10_000; sym::check(matches!(drive(&mut f), Some(Err(_))), "timed out"); }
        deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, 1, g, 1, &[x])));
        if k == 0 { match drive(&mut f) { Some(Ok(r)) => sym::check(eq(&r, &[x]), "first value"), _ => sym::check(false, "first value") } } else { settle(); }
    }
    let mut f = op(w.client().read_group_address_value(b));
    sym::check(drive(&mut f).is_none(), "the second read waits for its own answer");
    deliver(0, tunnel(c.ch, 1, &ldata(IND, 0xbc, 1, h, 1, &[y])));
    match drive(&mut f) { Some(Ok(r)) => sym::check(eq(&r, &[y]), "second value"), _ => sym::check(false, "second value") }
    sym::reach("two reads");
}

// ---------------------------------------------------------------- C21
#[no_mangle]
pub extern "C" fn h_c21_write() {
    let k = sym::case(10);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    if sym::split(sym::bool() as u64) == 1 { deliver(0, tunnel(c.ch, 200, &ldata(CON, 0xbc, 1, g, 2, &[7]))); settle(); taken(); sym::reach("stale confirmation"); }
    let small = sym::split(sym::bool() as u64) == 1;
    let v = sym::bytes(if small { 1 } else { 2 });
    let mut f = op(w.client().write_group_address_value(a, v.clone(), small));
    let r = drive(&mut f);
    let s = taken();
    sym::check(r.is_none(), "the confirmation comes after the request");
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, 0, g, 2, &v, small), "one group value write with the value for the address");
    let mut n = 0;
    let mut t = 0u64;
    while n < sym::tier(3, 4) {
        let dt = sym::u16() as u64;
        sym::assume(t + dt < 10_000);
        t += dt;
        world().now += dt;
        let m = if n == 0 { msg(&c, 0, g, k as u64) } else { any_msg(&c, n as u8, g) };
        deliver(0, m.d);
        match drive(&mut f) {
            None => sym::check(m.confirm.is_none(), "the confirmation completes the write"),
            Some(r) => {
                match m.confirm {
                    Some(x) => sym::check(r.is_ok() == x, "success exactly when the bus confirmed it"),
                    None => sym::check(false, "no other message completes a write"),
                }
                sym::reach(if r.is_ok() { "confirmed" } else { "refused" });
                return;
            }
        }
        n += 1;
    }
    world().now += 9_999 - t;
    sym::check(drive(&mut f).is_none(), "waits ten seconds");
    world().now += 1;
    sym::check(matches!(drive(&mut f), Some(Err(_))), "an unconfirmed write is an error after ten seconds");
    sym::reach("timed out");
}
/// Lengths: what is sent carries the whole value, or the write is refused.
#[no_mangle]
pub extern "C" fn h_c21_length() {
    let k = sym::case(4);
    let (monitor, small) = (k & 1 == 1, k & 2 != 0);
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let (a, g) = group();
    let n = [0usize, 1, 2, 14, 15, 253, 254, 300][sym::split(sym::below(8) as u64) as usize];
    let mut v = vec![0u8; n];
    if n > 0 { v[0] = sym::u8(); v[n - 1] = sym::u8(); }
    let mut f = w.write(a, v.clone(), small);
    let r = drive(&mut f);
    let s = taken();
    if n > 253 {
        sym::check(r == Some(false) && s.is_empty() || small && s.len() == 1, "a value that does not fit in a frame is refused and not sent");
        sym::reach("too long");
    } else {
        sym::check(r != Some(false), "a value that fits is not refused");
        sym::check(s.len() == 1 && is_request(&s[0], c.ch, w.seq0(), g, 2, &v, small), "the whole value is sent");
        sym::reach("sent");
    }
}
/// A write the caller gave up, or that failed: its late confirmation does not confirm the next one.
#[no_mangle]
pub extern "C" fn h_c21_abandoned() {
    let k = sym::case(3);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let v = sym::u8();
    {
        let mut f = w.write(KnxAddress::group_1_level(g), vec![1], true);
        if k == 0 { world().preempt = sym::tier(1, 2); let mut i = 0; while i < 3 { let _ = poll(f.as_mut()); i += 1; } world().preempt = 0; }
        else { drive(&mut f); if k == 1 { world().now += 10_000; sym::check(drive(&mut f) == Some(false), "unconfirmed"); } }
    }
    settle();
    taken();
    deliver(0, tunnel(c.ch, 0, &ldata(CON, 0xbc, 1, g, 2, &[])));
    settle();
    taken();
    let mut f = w.write(a, vec![v], true);
    sym::check(drive(&mut f).is_none(), "the confirmation comes after the request");
    let s = taken();
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, 1, g, 2, &[v], true), "one group value write with the value for the address");
    let e = sym::u8();
    deliver(0, tunnel(c.ch, 1, &ldata(CON, e, 1, g, 2, &[])));
    sym::check(drive(&mut f) == Some(e & 1 == 0), "its own confirmation");
    sym::reach("abandoned");
}
/// The connection is lost while the confirmation is awaited.
#[no_mangle]
pub extern "C" fn h_c21_lost() {
    let k = sym::case(3);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, _) = group();
    let mut f = w.write(a, vec![1, 2], false);
    drive(&mut f);
    taken();
    match k { 0 => deliver(0, disc_req(&c)), 1 => push(0, In::Error), _ => deliver(0, disc_resp(c.ch, 0)) }
    let mut r = drive(&mut f);
    let d = Conn::any();
    if r.is_none() && k < 2 { deliver(0, d.response(0)); r = drive(&mut f); }
    let s = taken();
    sym::check(count(&s, 0x0420) == 0, "the request is not repeated");
    if r.is_none() { world().now += 10_000; r = drive(&mut f); }
    sym::check(r == Some(false), "no success without a confirmation");
    sym::reach("lost");
}
/// The monitor sends exactly one request with the value, to any kind of address.
#[no_mangle]
pub extern "C" fn h_c21_kinds() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let (a, g) = any_group();
    let small = sym::split(sym::bool() as u64) == 1;
    let v = sym::bytes(if small { 1 } else { 3 });
    let mut f = w.write(a, v.clone(), small);
    let r = drive(&mut f);
    let s = taken();
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, w.seq0(), g, 2, &v, small), "one group value write with the value for the address");
    if monitor { sym::check(r == Some(true), "sent"); return; }
    let e = sym::u8();
    let mut x = ldata(CON, e, sym::u16(), g, 2, &v);
    x[3] = 0x80 | sym::u8();
    infos(&mut x);
    deliver(0, tunnel(c.ch, 9, &x));
    sym::check(drive(&mut f) == Some(e & 1 == 0), "success exactly when the bus confirmed it");
    sym::reach("kinds");
}
#[no_mangle]
pub extern "C" fn h_c21_not_sent() {
    let k = sym::case(4);
    let monitor = k & 1 == 1;
    let c = Conn::any();
    let w = if k < 2 { Who::new(monitor) } else { Who::connected(monitor, &c) };
    taken();
    if k >= 2 { world().send_fail = 1; }
    let (a, _) = group();
    let mut f = w.write(a, vec![1, 2], false);
    let r = match drive(&mut f) { None => { world().now += 10_000; drive(&mut f) } r => r };
    sym::check(r == Some(false), "a request that cannot be sent is an error");
    sym::check(taken().is_empty(), "nothing is sent");
    sym::reach("error");
}

// ---------------------------------------------------------------- C29
fn search_resp(ip: [u8; 4], port: u16, serial: u8, name: u8) -> Vec<u8> {
    let mut v = vec![6, 0x10, 2, 2, 0, 0, 8, 1, ip[0], ip[1], ip[2], ip[3], (port >> 8) as u8, port as u8];
    v.extend_from_slice(&[54, 1, 2, 1, 0x11, 0, 0, 0x11, 0, 1, 2, 3, 4, serial, 224, 0, 23, 12, 1, 2, 3, 4, 5, 6, name]);
    v.resize(v.len() + 29, 0);
    v.extend_from_slice(&[6, 2, 2, 1, 4, 1]);
    v[5] = v.len() as u8;
    v
}
#[no_mangle]
pub extern "C" fn h_c29_search() {
    world().local_port = sym::u16();
    world().local_ip = [sym::u8(), sym::u8(), sym::u8(), sym::u8()];
    let limit = [1u64, 250, 3000, 65000][sym::case(4)];
    let mut f = op(UdpClient::search(Duration::from_millis(limit)));
    sym::check(drive(&mut f).is_none(), "waits for answers");
    {
        let w = world();
        sym::check(w.sent.len() == 1, "one search request");
        let s = &w.sent[0];
        sym::check(s.to == Some((Ipv4Addr::new(224, 0, 23, 12), 3671)), "to the discovery endpoint");
        let (i, p) = (w.local_ip, w.local_port);
        sym::check(eq(&s.data, &[6, 0x10, 2, 1, 0, 14, 8, 1, i[0], i[1], i[2], i[3], (p >> 8) as u8, p as u8]), "naming the local endpoint");
    }
    let mut want: Vec<(u8, u8, u16)> = vec![];
    let mut n = 0;
    let mut t = 0u64;
    while n < sym::tier(2, 3) {
        let dt = sym::u16() as u64;
        sym::assume(t + dt < limit);
        t += dt;
        world().now += dt;
        reselect();
        match sym::split(sym::below(4) as u64) {
            0 => { let (q, e, p) = (sym::u8(), sym::u8(), sym::u16()); want.push((q, e, p)); deliver(0, search_resp([q, 1, 2, 3], p, e, sym::u8())); }
            1 => { let mut d = search_resp([1, 2, 3, 4], 5, 6, 7); d[3] = sym::u8(); sym::assume(d[3] != 2); deliver(0, d); }
            2 => { let m = sym::split(sym::below(4) as u64) as usize; let mut d = search_resp([1, 2, 3, 4], 5, 6, 7); d.truncate([0, 5, 40, 73][m]); deliver(0, d); }
            _ => {}
        }
        sym::check(drive(&mut f).is_none(), "keeps collecting until the time is up");
        n += 1;
    }
    let late = sym::u16() as u64;
    reselect();
    world().now += limit - t + late;
    let r = drive(&mut f);
    match r {
        Some(Ok(r)) => {
            sym::check(r.len() == want.len(), "every valid answer, nothing else");
            let mut i = 0;
            while i < want.len() && i < r.len() {
                let x = &r[i];
                sym::check(x.control_endpoint.address.ip().octets()[0] == want[i].0 && x.device_hardware.serial_number[5] == want[i].1
                    && x.control_endpoint.address.port() == want[i].2, "the answers in the order received");
                i += 1;
            }
            if want.len() > 1 { sym::reach("two answers"); }
            if want.is_empty() { sym::reach("no answer"); }
        }
        _ => sym::check(false, "ends successfully when the time is up"),
    }
    sym::reach("search");
}
#[no_mangle]
pub extern "C" fn h_c29_busy() {
    // a flood of datagrams does not prolong the search
    let mut f = op(UdpClient::search(Duration::from_millis(1000)));
    drive(&mut f);
    let mut i = 0;
    let mut r = None;
    while i < 20 && r.is_none() {
        world().now += 100;
        deliver(0, if i % 2 == 0 { search_resp([1, 2, 3, 4], 5, sym::u8(), 7) } else { vec![6] });
        r = drive(&mut f);
        sym::check(r.is_none() || world().now >= 1000, "not before the time is up");
        sym::check(r.is_some() || world().now < 1100, "at the deadline");
        i += 1;
    }
    match r { Some(Ok(r)) => sym::check(r.len() >= 5, "the answers received in time"), _ => sym::check(false, "ends successfully") }
    sym::reach("busy");
}

/// Searching for as long as one likes, or not at all.
#[no_mangle]
pub extern "C" fn h_c29_duration() {
    let k = sym::case(8);
    let d = [Duration::ZERO, Duration::from_nanos(1), Duration::from_micros(1500), Duration::from_secs(3600), Duration::from_secs(u32::MAX as u64), Duration::from_secs(i64::MAX as u64), Duration::from_secs(u64::MAX), Duration::MAX][k];
    world().now = sym::u16() as u64;
    let mut f = op(UdpClient::search(d));
    let mut r = drive(&mut f);
    sym::check(count(&taken(), 0x0201) == 1, "one search request");
    if k == 0 { if r.is_none() { world().now += 1; r = drive(&mut f); } sym::check(matches!(r, Some(Ok(v)) if v.is_empty()), "ends at once"); sym::reach("no time"); return; }
    sym::check(r.is_none(), "waits for answers");
    let x = sym::u8();
    deliver(0, search_resp([1, 2, 3, 4], 5, x, 7));
    sym::check(drive(&mut f).is_none(), "keeps collecting until the time is up");
    if k < 4 {
        world().now += [0, 1, 2, 3_600_000][k];
        match drive(&mut f) { Some(Ok(r)) => sym::check(r.len() == 1 && r[0].device_hardware.serial_number[5] == x, "the answer is returned"), _ => sym::check(false, "ends successfully when the time is up") }
        sym::reach("time is up");
    } else {
        world().now += 100_000_000;
        sym::check(drive(&mut f).is_none(), "keeps collecting until the time is up");
        sym::reach("no end");
    }
}
/// An answer of any size up to the largest datagram, any fields.
#[no_mangle]
pub extern "C" fn h_c29_answer() {
    let mut f = op(UdpClient::search(Duration::from_millis(1000)));
    drive(&mut f);
    let (d, dev, fam, h) = crate::c_dib::response_octets(sym::pick(&[0, 1, 2, 5, 16, 17, 18, 64, 93, 94, 126]));
    deliver(0, d);
    sym::check(drive(&mut f).is_none(), "keeps collecting until the time is up");
    world().now += 1000;
    match drive(&mut f) {
        Some(Ok(r)) => {
            sym::check(r.len() == 1, "the answer is returned");
            if r.len() == 1 { crate::c_dib::check_response(&r[0], &dev, &fam, &h); }
        }
        _ => sym::check(false, "ends successfully when the time is up"),
    }
    sym::reach("answer");
}
/// Many answers.
#[no_mangle]
pub extern "C" fn h_c29_many() {
    let n = [40usize, 130][sym::case(2)];
    let mut f = op(UdpClient::search(Duration::from_millis(1000)));
    drive(&mut f);
    let x = sym::u8();
    let mut i = 0;
    while i < n { deliver(0, search_resp([1, 2, 3, 4], i as u16, x, 7)); i += 1; }
    sym::check(drive(&mut f).is_none(), "keeps collecting until the time is up");
    world().now += 1000;
    match drive(&mut f) {
        Some(Ok(r)) => {
            sym::check(r.len() == n, "every valid answer");
            let mut i = 0;
            while i < n && i < r.len() { sym::check(r[i].control_endpoint.address.port() == i as u16 && r[i].device_hardware.serial_number[5] == x, "the answers in the order received"); i += 1; }
        }
        _ => sym::check(false, "ends successfully when the time is up"),
    }
    sym::reach("many");
}

// ---------------------------------------------------------------- C31
#[no_mangle]
pub extern "C" fn h_c31_status() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    // answers to heartbeats nobody asked for
    let stale = [0u64, 1, 2, 11][sym::case(4)];
    let mut i = 0;
    while i < stale { deliver(0, state_resp(sym::u8(), 0)); settle(); i += 1; }
    if stale > 0 { sym::reach("earlier responses"); }
    let mut f = op(w.client().get_connection_status());
    sym::check(drive(&mut f).is_none(), "waits for the answer to its own request");
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &c.heartbeat()), "one connectionstate request for channel and endpoint of the connection");
    let mut n = 0;
    let mut t = 0u64;
    while n < 2 {
        let dt = sym::u16() as u64;
        sym::assume(t + dt < 10_000);
        t += dt;
        world().now += dt;
        let (ch, st) = (sym::u8(), sym::u8());
        match sym::split(sym::below(4) as u64) {
            0 => {
                deliver(0, state_resp(ch, st));
                match drive(&mut f) { Some(Ok(r)) => sym::check(r.status == st && r.communication_channel_id == ch, "channel and status of the response"), _ => sym::check(false, "the response is returned, whatever its status") }
                sym::reach("answered");
                return;
            }
            1 => { deliver(0, tunnel(ch, st, &ldata(IND, 0xbc, 1, 2, 2, &[3]))); sym::check(drive(&mut f).is_none(), "waits"); let s = taken(); sym::check(s.len() == 1 && eq(&s[0], &ack(ch, st)), "requests are acknowledged meanwhile"); }
            2 => { deliver(0, vec![6, 0x10, 2, 8, 0, 9, ch, st]); sym::check(drive(&mut f).is_none(), "waits"); }
            _ => { deliver(0, feature_resp(ch, st)); sym::check(drive(&mut f).is_none(), "waits"); taken(); }
        }
        n += 1;
    }
    world().now += 9_999 - t;
    sym::check(drive(&mut f).is_none(), "waits ten seconds");
    world().now += 1;
    sym::check(matches!(drive(&mut f), Some(Err(_))), "then reports the failure");
    sym::reach("timed out");
}
#[no_mangle]
pub extern "C" fn h_c31_not_sent() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = if k == 0 { Who::new(false) } else { Who::connected(false, &c) };
    taken();
    if k == 1 { world().send_fail = 1; }
    let mut f = op(w.client().get_connection_status());
    let r = match drive(&mut f) { None => { world().now += 10_000; drive(&mut f) } r => r };
    sym::check(matches!(r, Some(Err(_))), "an error without a connection or when the request cannot be sent");
    sym::check(taken().is_empty(), "nothing is sent");
    sym::reach("error");
}
/// After a reconnect the query is about the new connection; queries follow each other.
#[no_mangle]
pub extern "C" fn h_c31_again() {
    let k = sym::case(3);
    let mut c = Conn::any();
    let w = Who::connected(false, &c);
    if k > 0 {
        if k == 1 { deliver(0, disc_req(&c)); } else { let st = sym::u8(); sym::assume(st != 0); deliver(0, state_resp(c.ch, st)); }
        settle();
        c = Conn::any();
        deliver(0, c.response(0));
        settle();
        sym::reach("reconnected");
    }
    taken();
    let mut i = 0;
    while i < 2 {
        let mut f = op(w.client().get_connection_status());
        sym::check(drive(&mut f).is_none(), "waits for the answer to its own request");
        let s = taken();
        sym::check(s.len() == 1 && eq(&s[0], &c.heartbeat()), "one connectionstate request for channel and endpoint of the connection");
        // a failed, an abandoned or an answered query before the last one
        match if i == 0 { sym::split(sym::below(3) as u64) } else { 2 } {
            0 => { world().now += 10_000; sym::check(matches!(drive(&mut f), Some(Err(_))), "timed out"); deliver(0, state_resp(sym::u8(), 0)); settle(); }
            1 => { drop(f); deliver(0, state_resp(sym::u8(), 0)); settle(); }
            _ => {
                let (ch, st) = (sym::u8(), if i == 0 { 0 } else { sym::u8() });
                deliver(0, state_resp(ch, st));
                match drive(&mut f) { Some(Ok(r)) => sym::check(r.status == st && r.communication_channel_id == ch, "channel and status of the response"), _ => sym::check(false, "the response is returned, whatever its status") }
            }
        }
        taken();
        i += 1;
    }
    sym::reach("again");
}
/// The connection is lost while the status is awaited.
#[no_mangle]
pub extern "C" fn h_c31_lost() {
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let mut f = op(w.client().get_connection_status());
    drive(&mut f);
    match sym::case(3) { 0 => deliver(0, disc_req(&c)), 1 => push(0, In::Error), _ => deliver(0, disc_resp(c.ch, 0)) }
    let r = match drive(&mut f) { None => { world().now += 10_000; drive(&mut f) } r => r };
    sym::check(matches!(r, Some(Err(_))), "no status without a response");
    sym::reach("lost");
}

// ---------------------------------------------------------------- C30
/// Two client operations at once, every interleaving at await points: each gets the result of its own
/// request, the requests are numbered in the order sent, nobody waits forever.
#[no_mangle]
pub extern "C" fn h_c30_client() {
    let k = sym::case(16);
    // the gateway answers at once, or when nothing else happens, the latest request first
    let (k, late) = (k % 8, k >= 8);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (g, h) = (sym::u16(), sym::u16());
    let h = if k >= 6 { g } else { sym::assume(g != h); h };
    let (x, y) = (sym::u8(), sym::u8());
    let ok = sym::bool();
    let cl = w.client();
    // 0: status + write, 1: read + write, 2: two writes, 3: two reads, 4: status + read, 5: two status queries,
    // 6: two reads of one group, 7: read and write of one group
    let mut a: Op<Result<Vec<u8>, ()>> = match k {
        0 | 4 | 5 => op(async move { cl.get_connection_status().await.map(|r| vec![r.status]).map_err(|_| ()) }),
        2 => op(async move { cl.write_group_address_value(KnxAddress::group_1_level(g), vec![x, 1], false).await.map(|_| vec![]).map_err(|_| ()) }),
        _ => op(async move { cl.read_group_address_value(KnxAddress::group_1_level(g)).await.map_err(|_| ()) }),
    };
    let mut b: Op<Result<Vec<u8>, ()>> = if k == 5 {
        op(async move { cl.get_connection_status().await.map(|r| vec![r.status]).map_err(|_| ()) })
    } else if k == 3 || k == 4 || k == 6 {
        op(async move { cl.read_group_address_value(KnxAddress::group_1_level(h)).await.map_err(|_| ()) })
    } else {
        op(async move { cl.write_group_address_value(KnxAddress::group_1_level(h), vec![y, 2], false).await.map(|_| vec![]).map_err(|_| ()) })
    };
    world().preempt = if late { 1 } else { sym::tier(2, 3) };
    let mut held: Vec<Vec<u8>> = vec![];
    let (mut ra, mut rb) = (None, None);
    let mut seq = 0u8;
    let mut answered = 0;
    let mut gseq = 0u8;
    let mut idle = 0;
    let mut rounds = 0;
    while (ra.is_none() || rb.is_none()) && idle < 3 && rounds < 60 {
        let before = world().events;
        // either operation may be polled first
        let swap = rounds < 2 && sym::bool();
        let mut i = 0;
        while i < 2 {
            if (i == 0) != swap { if ra.is_none() { if let std::task::Poll::Ready(v) = poll(a.as_mut()) { ra = Some(v); } } }
            else if rb.is_none() { if let std::task::Poll::Ready(v) = poll(b.as_mut()) { rb = Some(v); } }
            i += 1;
        }
        tokio::task::run(0);
        for p in taken() {
            match service(&p) {
                0x0420 => {
                    sym::check(p.len() > 20 && p[7] == c.ch && p[8] == seq, "requests are numbered in the order sent");
                    seq = seq.wrapping_add(1);
                    let d = be16(&p, 16);
                    let read = p[20] & 0xc0 == 0;
                    // the gateway answers each request
                    held.push(if read { tunnel(c.ch, gseq, &ldata(IND, 0xbc, 1, d, 1, &[if d == g { x } else { y }])) }
                    else { tunnel(c.ch, gseq, &ldata(CON, if d == g && !ok { 0xbd } else { 0xbc }, 0, d, 2, &[])) });
                    gseq = gseq.wrapping_add(1);
                    answered += 1;
                }
                0x0207 => { sym::check(eq(&p, &c.heartbeat()), "connectionstate request"); held.push(state_resp(c.ch, 0)); }
                0x0421 => {}
                _ => sym::check(false, "nothing else is sent"),
            }
        }
        if !late { for d in held.drain(..) { deliver(0, d); } }
        if world().events == before { idle += 1; } else { idle = 0; }
        if idle > 0 { if let Some(d) = held.pop() { deliver(0, d); idle = 0; } }
        rounds += 1;
    }
    sym::check(ra.is_some() && rb.is_some(), "both operations complete");
    sym::check(answered == match k { 0 | 4 => 1, 5 => 0, _ => 2 }, "each request is sent once");
    if let (Some(ra), Some(rb)) = (ra, rb) {
        match k {
            0 | 4 | 5 => sym::check(matches!(&ra, Ok(v) if eq(v, &[0])), "status of the connection"),
            2 => sym::check(ra.is_ok() == ok, "first write: its own confirmation"),
            _ => sym::check(matches!(&ra, Ok(v) if eq(v, &[x])), "first read: its own value"),
        }
        if k == 5 { sym::check(matches!(&rb, Ok(v) if eq(v, &[0])), "status of the connection"); }
        else if k == 7 { sym::check(rb.is_ok() == ok, "write of the same group: its own confirmation"); }
        else if k == 3 || k == 4 || k == 6 { sym::check(matches!(&rb, Ok(v) if eq(v, &[if h == g { x } else { y }])), "second read: its own value"); } else { sym::check(rb.is_ok(), "second write: its own confirmation"); }
    }
    if world().preempted > 0 { sym::reach("preempted"); }
    sym::reach("both");
}
/// One of two operations is given up by its caller, at any await point: the other one completes with its own result.
#[no_mangle]
pub extern "C" fn h_c30_abandoned() {
    let k = sym::case(8);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let cl = w.client();
    let g = sym::u16();
    let (x, e) = (sym::u8(), sym::u8());
    let mut a: Op<()> = match k >> 1 {
        0 => op(async move { let _ = cl.read_group_address_value(KnxAddress::group_1_level(g)).await; }),
        1 => op(async move { let _ = cl.write_group_address_value(KnxAddress::group_1_level(g), vec![x, 1], false).await; }),
        2 => op(async move { let _ = cl.get_connection_status().await; }),
        _ => op(async move { let _ = cl.disconnect().await; }),
    };
    let mut b: Op<Result<Vec<u8>, ()>> = if k & 1 == 0 { op(async move { cl.read_group_address_value(KnxAddress::group_1_level(g)).await.map_err(|_| ()) }) }
        else { op(async move { cl.write_group_address_value(KnxAddress::group_1_level(g), vec![2, 2], false).await.map(|_| vec![]).map_err(|_| ()) }) };
    world().preempt = sym::tier(2, 3);
    let mut i = 0;
    let polls = sym::range(1, 3);
    let mut rb = None;
    while i < polls {
        let _ = poll(a.as_mut());
        if rb.is_none() { if let std::task::Poll::Ready(v) = poll(b.as_mut()) { rb = Some(v); } }
        tokio::task::run(0);
        i += 1;
    }
    drop(a);
    let before = count(&taken(), 0x0420);
    world().preempt = 0;
    if rb.is_none() { rb = drive(&mut b); }
    sym::check(rb.is_none(), "the other operation waits for its own answer");
    let s = taken();
    let q = of(&s, 0x0420);
    sym::check(before + q.len() >= 1 && before + q.len() <= 2, "the request of the other operation is sent");
    for p in q { sym::check(p.len() > 8 && p[8] as usize == before, "numbered in the order sent"); }
    deliver(0, tunnel(c.ch, 0, &if k & 1 == 0 { ldata(IND, 0xbc, 1, g, 1, &[x]) } else { ldata(CON, e, 0, g, 2, &[]) }));
    match drive(&mut b) {
        Some(Ok(v)) => sym::check(if k & 1 == 0 { eq(&v, &[x]) } else { e & 1 == 0 }, "the result of its own request"),
        Some(Err(_)) => sym::check(k & 1 == 1 && e & 1 == 1, "the result of its own request"),
        None => sym::check(false, "the other operation completes"),
    }
    sym::reach("abandoned");
}
/// A reconnect in the middle of a request, every interleaving: whatever is sent carries a channel and a
/// number of one and the same connection.
#[no_mangle]
pub extern "C" fn h_c30_reconnect() {
    let monitor = sym::case(2) == 1;
    let c = Conn::any();
    let d = Conn::any();
    sym::assume(c.ch != d.ch);
    let w = Who::connected(monitor, &c);
    // one request already done: the old connection is at the next number
    {
        let mut f = w.write(KnxAddress::group_1_level(1), vec![1], true);
        if drive(&mut f).is_none() { deliver(0, tunnel(c.ch, 0, &ldata(CON, 0xbc, 0, 1, 2, &[]))); drive(&mut f); }
    }
    taken();
    let first = w.seq0();
    world().preempt = sym::tier(2, 3);
    let mut f = w.write(KnxAddress::group_1_level(2), vec![2], true);
    let mut r = None;
    deliver(0, disc_req(&c));
    let mut i = 0;
    while i < 12 {
        // either of them, or both, may go on
        let go = if i > sym::tier(3, 4) { 2 } else { sym::range(0, 2) };
        if go != 1 && r.is_none() { if let std::task::Poll::Ready(v) = poll(f.as_mut()) { r = Some(v); } }
        if go != 0 { tokio::task::run(0); }
        let mut connect = false;
        for p in taken() {
            if service(&p) == 0x0205 { connect = true; }
            if service(&p) == 0x0420 {
                sym::check(p.len() > 8 && (p[7] == c.ch && p[8] == first + 1 || p[7] == d.ch && p[8] == first), "channel and number of the same connection");
                if p[7] == d.ch { sym::reach("on the new connection"); } else { sym::reach("on the old connection"); }
            }
        }
        if connect { deliver(0, d.response(0)); }
        i += 1;
    }
    sym::reach("reconnect");
}
/// Waiting for a message does not keep the monitor from sending.
#[no_mangle]
pub extern "C" fn h_c30_monitor() {
    let k = sym::case(4);
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let m = w.monitor();
    let mut f = op(m.next_msg());
    sym::check(drive(&mut f).is_none(), "waits for a message");
    let (a, g) = group();
    match k {
        0 => { let mut q = w.write(a, vec![5, 6], false); sym::check(drive(&mut q) == Some(true), "write while waiting"); let s = taken(); sym::check(s.len() == 1 && is_request(&s[0], c.ch, 1, g, 2, &[5, 6], false), "is sent"); }
        1 => { let mut q = w.ask(a); sym::check(drive(&mut q) == Some(true), "read request while waiting"); let s = taken(); sym::check(s.len() == 1 && is_request(&s[0], c.ch, 1, g, 0, &[], true), "is sent"); }
        2 => { let mut q = op(m.is_connected()); sym::check(drive(&mut q) == Some(true), "state while waiting"); }
        _ => {
            let mut q = w.disconnect();
            sym::check(drive(&mut q).is_none(), "disconnect while waiting");
            deliver(0, disc_resp(c.ch, 0));
            sym::check(matches!(drive(&mut q), Some(Ok(_))), "disconnect while waiting");
            sym::check(matches!(drive(&mut f), Some(Err(_))), "no more messages after a disconnect");
            sym::reach("disconnect");
            return;
        }
    }
    let v = sym::u8();
    deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, 1, g, 2, &[v])));
    match drive(&mut f) { Some(Ok(r)) => sym::check(r.l_data.dest == g && eq(&r.value, &[v]), "the message arrives"), _ => sym::check(false, "the message arrives") }
    sym::reach("waiting");
}
/// Two monitor requests at once, every interleaving.
#[no_mangle]
pub extern "C" fn h_c30_monitor_pair() {
    let c = Conn::any();
    let w = Who::connected(true, &c);
    let (a, g) = group();
    let (b, h) = group();
    world().preempt = sym::tier(3, 5);
    let mut x = w.write(a, vec![1], true);
    let mut y = w.ask(b);
    let (mut rx, mut ry) = (None, None);
    let mut i = 0;
    while i < 14 && (rx.is_none() || ry.is_none()) {
        if sym::bool() || i > 2 { if rx.is_none() { if let std::task::Poll::Ready(v) = poll(x.as_mut()) { rx = Some(v); } } }
        if ry.is_none() { if let std::task::Poll::Ready(v) = poll(y.as_mut()) { ry = Some(v); } }
        i += 1;
    }
    sym::check(rx == Some(true) && ry == Some(true), "both are sent");
    let s = taken();
    let q = of(&s, 0x0420);
    sym::check(q.len() == 2 && q[0][8] == 1 && q[1][8] == 2 && q[0][7] == c.ch && q[1][7] == c.ch, "numbered in the order sent");
    if q.len() == 2 {
        let first = is_request(q[0], c.ch, 1, g, 2, &[1], true) && is_request(q[1], c.ch, 2, h, 0, &[], true);
        let second = is_request(q[0], c.ch, 1, h, 0, &[], true) && is_request(q[1], c.ch, 2, g, 2, &[1], true);
        sym::check(first || second, "each once");
    }
    sym::reach("pair");
}
/// A status query or a disconnect with a reconnect in the middle, every interleaving: it carries the channel
/// and the endpoint of one and the same connection.
fn control_and_reconnect(status: bool) {
    let monitor = !status && sym::case(2) == 1;
    let c = Conn::any();
    let d = Conn::any();
    sym::assume(c.ch != d.ch);
    let w = Who::connected(monitor, &c);
    taken();
    world().preempt = sym::tier(2, 3);
    let mut f: Op<'_, ()> = match &w {
        Who::C(x) if status => op(async move { let _ = x.get_connection_status().await; }),
        w => { let g = w.disconnect(); op(async move { let _ = g.await; }) }
    };
    let kind = if status { 0x0207 } else { 0x0209 };
    let mut done = false;
    deliver(0, disc_req(&c));
    let mut i = 0;
    while i < 12 {
        // either of them, or both, may go on
        let go = if i > sym::tier(3, 4) { 2 } else { sym::range(0, 2) };
        if go != 1 && !done { done = poll(f.as_mut()).is_ready(); }
        if go != 0 { tokio::task::run(0); }
        let mut connect = false;
        for p in taken() {
            if service(&p) == 0x0205 { connect = true; }
            if service(&p) == kind {
                let (old, new) = if status { (c.heartbeat(), d.heartbeat()) } else { (c.disconnect(), d.disconnect()) };
                sym::check(eq(&p, &old) || eq(&p, &new), "channel and endpoint of the same connection");
                if eq(&p, &new) { sym::reach("on the new connection"); } else { sym::reach("on the old connection"); }
            }
        }
        if connect { deliver(0, d.response(0)); }
        i += 1;
    }
    sym::reach("reconnect");
}
#[no_mangle]
pub extern "C" fn h_c31_reconnect() { control_and_reconnect(true) }
#[no_mangle]
pub extern "C" fn h_c25_reconnect() { control_and_reconnect(false) }

/// Every notation of a group: the request goes to its word, and messages for that word count.
fn notation(read: bool) {
    let k = sym::case(6);
    let monitor = k >= 3;
    let c = Conn::any();
    let w = Who::connected(monitor, &c);
    let (a, g) = group_of(k % 3);
    let (o, v) = (sym::u16(), sym::bytes(2));
    sym::assume(o != g);
    let mut f = if read { w.ask(a) } else { w.write(a, v.clone(), false) };
    let r = drive(&mut f);
    let s = taken();
    sym::check(s.len() == 1, "one request");
    sym::check(if read { is_request(&s[0], c.ch, w.seq0(), g, 0, &[], true) } else { is_request(&s[0], c.ch, w.seq0(), g, 2, &v, false) }, "to the word of the group");
    if monitor { sym::check(r == Some(true), "a monitor does not wait"); sym::reach("monitor"); return; }
    sym::check(r.is_none(), "waits");
    let code = if read { IND } else { CON };
    let apci = if read { 1 } else { 2 };
    deliver(0, tunnel(c.ch, 1, &ldata(code, 0xbc, 1, o, apci, &v[..1])));
    sym::check(drive(&mut f).is_none(), "another group does not complete it");
    deliver(0, tunnel(c.ch, 2, &ldata(code, 0xbc, 1, g, apci, &v[..1])));
    sym::check(drive(&mut f) == Some(true), "its own group completes it");
    sym::reach("client");
}
#[no_mangle]
pub extern "C" fn h_c20_notation() { notation(true) }
#[no_mangle]
pub extern "C" fn h_c21_notation() { notation(false) }

/// Operations queued behind one that is never answered: each has its ten seconds from its own request.
fn behind(kind: usize) {
    let k = sym::case(12);
    let (first, early, answered) = (k % 3, k / 3 & 1 == 0, k / 6 == 0);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let cl = w.client();
    let (g, h) = (sym::u16(), sym::u16());
    sym::assume(g != h);
    let v = sym::u8();
    let start = |kind: usize, g: u16| -> Op<'_, bool> { match kind {
        0 => op(async move { cl.read_group_address_value(KnxAddress::group_1_level(g)).await.is_ok() }),
        1 => op(async move { cl.write_group_address_value(KnxAddress::group_1_level(g), vec![1, 2], false).await.is_ok() }),
        2 => op(async move { cl.get_connection_status().await.is_ok() }),
        _ => op(async move { cl.disconnect().await.is_ok() }),
    } };
    let mut a = start(first, g);
    sym::check(drive(&mut a).is_none(), "nobody answers");
    sym::check(taken().len() == 1, "one request");
    wait(if early { 1_000 } else { 9_000 });
    let mut b = start(kind, h);
    let mut done = false;
    let mut r = drive(&mut b);
    let mut sent = taken().len();
    let mut i = 0;
    while sent == 0 && r.is_none() && i < 100 {
        wait(100);
        if !done { done = drive(&mut a).is_some(); }
        r = drive(&mut b);
        sent = taken().len();
        i += 1;
    }
    sym::check(sent == 1 && r.is_none(), "the second request is sent, at the latest after the first one's time");
    wait(9_000);
    if !done { done = drive(&mut a).is_some(); }
    sym::check(drive(&mut b).is_none() && taken().is_empty(), "still waiting nine seconds later");
    if answered {
        deliver(0, match kind { 0 => tunnel(c.ch, 1, &ldata(IND, 0xbc, 1, h, 1, &[v])), 1 => tunnel(c.ch, 1, &ldata(CON, 0xbc, 1, h, 2, &[])), 2 => state_resp(c.ch, 0), _ => disc_resp(c.ch, 0) });
        sym::check(drive(&mut b) == Some(true), "an answer within ten seconds of the request counts");
        sym::reach("answered");
    } else {
        wait(1_100);
        sym::check(drive(&mut b) == Some(false), "fails ten seconds after the request");
        sym::reach("unanswered");
    }
    if !done { sym::check(drive(&mut a) == Some(false), "the first one fails"); }
}
#[no_mangle]
pub extern "C" fn h_c20_behind() { behind(0) }
#[no_mangle]
pub extern "C" fn h_c21_behind() { behind(1) }
#[no_mangle]
pub extern "C" fn h_c31_behind() { behind(2) }
#[no_mangle]
pub extern "C" fn h_c25_behind() { behind(3) }
/// Flushing completes whatever else is under way, sends nothing and takes nothing.
#[no_mangle]
pub extern "C" fn h_c30_flush() {
    let k = sym::case(5);
    let c = Conn::any();
    let w = if k == 4 { Who::new(false) } else { Who::connected(false, &c) };
    let cl = w.client();
    taken();
    let (g, v) = (sym::u16(), sym::u8());
    let mut a: Op<'_, Option<Vec<u8>>> = match k {
        0 => op(async move { cl.read_group_address_value(KnxAddress::group_1_level(g)).await.ok() }),
        1 => op(async move { cl.write_group_address_value(KnxAddress::group_1_level(g), vec![v, 1], false).await.ok().map(|_| vec![v]) }),
        2 => op(async move { cl.get_connection_status().await.ok().map(|r| vec![r.status]) }),
        _ => op(async move { None }),
    };
    if k < 3 { sym::check(drive(&mut a).is_none() && taken().len() == 1, "waits for the answer"); }
    let early = sym::bool();
    let d = match k { 0 => tunnel(c.ch, 1, &ldata(IND, 0xbc, 1, g, 1, &[v])), 1 => tunnel(c.ch, 1, &ldata(CON, 0xbc, 1, g, 2, &[])), _ => state_resp(c.ch, 0) };
    if early && k < 3 { deliver(0, d.clone()); settle(); taken(); }
    let mut f = op(cl.flush());
    // the answer of the operation may have to be handled first
    let mut r = drive(&mut f);
    if r.is_none() && k < 3 {
        if !early { deliver(0, d.clone()); }
        match (drive(&mut a), k) { (Some(Some(x)), 0 | 1) => sym::check(eq(&x, &[v]), "its own result"), (Some(Some(_)), _) => (), _ => sym::check(false, "its own result") }
        r = drive(&mut f);
        sym::check(matches!(r, Some(Ok(_))), "flushing completes");
        return;
    }
    sym::check(matches!(r, Some(Ok(_))), "flushing completes");
    sym::check(taken().is_empty(), "sends nothing");
    if k < 3 {
        if !early { deliver(0, d); }
        match (drive(&mut a), k) { (Some(Some(x)), 0 | 1) => sym::check(eq(&x, &[v]), "its own result"), (Some(Some(_)), _) => (), _ => sym::check(false, "its own result") }
    }
    sym::reach("flushed");
}

// ---------------------------------------------------------------- the answer is there before the sender goes on
/// Starts `f`, whose sender is held up right after its request went out; `answer` arrives and is handled meanwhile.
fn quick<T>(f: &mut Op<'_, T>, answer: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    world().after = 1;
    sym::check(poll(f.as_mut()).is_pending(), "waits for the answer");
    let mut s = taken();
    if s.is_empty() { tokio::task::run(0); s = taken(); }
    world().after = 0;
    for d in answer { deliver(0, d); }
    settle();
    s
}
/// A value that arrives as soon as the read is sent is its answer.
#[no_mangle]
pub extern "C" fn h_c20_quick() {
    let k = sym::case(3);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let v = sym::bytes(2);
    if k == 1 { deliver(0, tunnel(c.ch, 0, &ldata(IND, 0xbc, 1, g, 2, &[v[0]]))); settle(); taken(); }
    let mut f = op(w.client().read_group_address_value(a));
    let mut q = vec![];
    if k == 2 { q.push(tunnel(c.ch, 1, &ldata(CON, 0xbc, 1, g, 0, &[]))); q.push(tunnel(c.ch, 2, &ldata(IND, 0xbc, 1, g ^ 1, 1, &[v[0]]))); }
    q.push(tunnel(c.ch, 3, &ldata(IND, 0xbc, 1, g, 1, &[v[1]])));
    let s = quick(&mut f, q);
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, 0, g, 0, &[], true), "one group value read for the address");
    match drive(&mut f) { Some(Ok(y)) => sym::check(eq(&y, &[v[1]]), "the value received after the request"), _ => sym::check(false, "the answer completes the read") }
    sym::reach("quick");
}
/// A confirmation that arrives as soon as the write is sent is taken.
#[no_mangle]
pub extern "C" fn h_c21_quick() {
    let k = sym::case(3);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    let (a, g) = group();
    let v = sym::bytes(2);
    if k == 1 { deliver(0, tunnel(c.ch, 0, &ldata(CON, 0xbd, 1, g, 2, &[]))); settle(); taken(); }
    let mut f = op(w.client().write_group_address_value(a, vec![v[0]], false));
    let mut q = vec![];
    if k == 2 { q.push(tunnel(c.ch, 1, &ldata(IND, 0xbc, 1, g, 1, &[v[0]]))); }
    q.push(tunnel(c.ch, 3, &ldata(CON, v[1], 1, g, 2, &[v[0]])));
    let s = quick(&mut f, q);
    sym::check(s.len() == 1 && is_request(&s[0], c.ch, 0, g, 2, &[v[0]], false), "one group value write");
    match drive(&mut f) { Some(r) => sym::check(r.is_ok() == (v[1] & 1 == 0), "the result of the confirmation"), None => sym::check(false, "the confirmation completes the write") }
    sym::reach("quick");
}
/// A connection state that arrives as soon as it is asked for is returned.
#[no_mangle]
pub extern "C" fn h_c31_quick() {
    let k = sym::case(2);
    let c = Conn::any();
    let w = Who::connected(false, &c);
    if k == 1 { deliver(0, state_resp(c.ch, 0)); settle(); }
    let (ch, st) = (sym::u8(), sym::u8());
    let mut f = op(w.client().get_connection_status());
    let s = quick(&mut f, vec![state_resp(ch, st)]);
    sym::check(s.len() == 1 && eq(&s[0], &c.heartbeat()), "one connectionstate request for channel and endpoint of the connection");
    match drive(&mut f) { Some(Ok(r)) => sym::check(r.status == st && r.communication_channel_id == ch, "channel and status of the response"), _ => sym::check(false, "the response is returned, whatever its status") }
    sym::reach("quick");
}
/// A disconnect response that arrives as soon as it is asked for ends the disconnect.
#[no_mangle]
pub extern "C" fn h_c25_quick() {
    let k = sym::case(4);
    let c = Conn::any();
    let w = Who::connected(k & 1 == 1, &c);
    if k & 2 != 0 { deliver(0, state_resp(c.ch, 0)); settle(); }
    let st = sym::u8();
    let mut f = w.disconnect();
    let s = quick(&mut f, vec![disc_resp(c.ch, st)]);
    sym::check(s.len() == 1 && eq(&s[0], &c.disconnect()), "one disconnect request for channel and endpoint of the connection");
    match drive(&mut f) {
        Some(Ok(None)) => sym::check(k & 1 == 0, "client"),
        Some(Ok(Some(r))) => sym::check(r == st, "the status of the response"),
        _ => sym::check(false, "the response ends the disconnect"),
    }
    drop(f);
    wait(120_000);
    sym::check(taken().is_empty(), "nothing is sent any more");
    sym::reach("quick");
}
/// The response to a disconnect the caller gave up still ends everything, whatever operation is under way.
#[no_mangle]
pub extern "C" fn h_c25_late() {
    let k = sym::case(8);
    let c = Conn::any();
    let w = Who::connected(k & 1 == 1, &c);
    {
        let mut f = w.disconnect();
        sym::check(drive(&mut f).is_none(), "waits for the response");
    }
    let s = taken();
    sym::check(s.len() == 1 && eq(&s[0], &c.disconnect()), "one disconnect request for channel and endpoint of the connection");
    let a = KnxAddress::group_1_level(7);
    let mut f = match k >> 1 { 0 => w.write(a, vec![1], true), 1 => w.ask(a), 2 => op(async { w.disconnect().await.is_ok() }), _ => op(async { false }) };
    let before = sym::split(sym::bool() as u64) == 1;
    if before { world().preempt = 1; } else { world().after = 1; }
    let mut done = poll(f.as_mut()).is_ready();
    world().preempt = 0;
    world().after = 0;
    deliver(0, disc_resp(c.ch, sym::u8()));
    settle();
    if !done { done = drive(&mut f).is_some(); }
    if !done { world().now += 10_000; done = drive(&mut f).is_some(); }
    sym::check(done, "an operation under way ends");
    drop(f);
    settle();
    taken();
    if let Who::M(m) = &w { sym::check(!now(m.is_connected()), "not connected"); }
    let mut f = w.write(KnxAddress::group_1_level(7), vec![1], true);
    sym::check(drive(&mut f) == Some(false), "requests fail after the disconnect response");
    drop(f);
    wait(120_000);
    sym::check(taken().is_empty(), "nothing is sent any more");
    sym::reach("late");
}
