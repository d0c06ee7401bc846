//! The network configuration check and party ids.
use crate::base::*;
use iris_mpc::verif::PartyID;
use mpc_net::config::{NetworkConfig, NetworkParty};
use std::net::SocketAddr;

/// `n` parties with any ids
fn config(n: usize) {
    let a = SocketAddr::from(([127, 0, 0, 1], 1000));
    let mut ids = vec![];
    let mut ps = vec![];
    for _ in 0..n {
        let id: usize = sym();
        ids.push(id);
        ps.push(NetworkParty { id, dns_name: String::new(), bind_addr: a, public_addr: a, cert_path: "c".into() });
    }
    let me: usize = sym();
    let mut e = false;
    for i in 0..n { e |= ids[i] == me; }
    for i in 0..n { for j in 0..i { e &= ids[i] != ids[j]; } }
    let c = NetworkConfig { parties: ps, my_id: me, key_path: "k".into() };
    if e {
        check(c.check_config().is_ok(), 1);
        reach(1);
    } else {
        check(c.check_config().is_err(), 2);
        reach(2);
    }
}
#[no_mangle] pub extern "C" fn p26_config_0() { config(0) }
#[no_mangle] pub extern "C" fn p26_config_1() { config(1) }
#[no_mangle] pub extern "C" fn p26_config_2() { config(2) }
#[no_mangle] pub extern "C" fn p26_config_3() { config(3) }
#[no_mangle] pub extern "C" fn p26_config_4() { config(4) }
#[no_mangle] pub extern "C" fn p26_config_5() { config(5) }
#[no_mangle]
pub extern "C" fn p26_id() {
    let x: usize = sym();
    match PartyID::try_from(x) {
        Ok(p) => {
            check(x < 3 && usize::from(p) == x, 1);
            check(usize::from(p.next_id()) == (x + 1) % 3, 2);
            check(usize::from(p.prev_id()) == (x + 2) % 3, 3);
            check(p.next_id().prev_id() == p && p.prev_id().next_id() == p, 4);
            reach(1);
        }
        Err(_) => { check(x >= 3, 5); reach(2) }
    }
    let y: u8 = sym();
    match PartyID::try_from(y) { Ok(p) => check(y < 3 && usize::from(p) == y as usize, 6), Err(_) => check(y >= 3, 7) }
}
