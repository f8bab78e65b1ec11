//! C04: every emitted packet fits the transmission limit.
use crate::core::*;
use crate::wires::*;
use over_there::core::transport::auth::Digest;
use over_there::core::transport::crypto::*;
use over_there::core::transport::{Authenticator, NetTransmission, Signer, Verifier};
use serde_json::json;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

/// A signer whose digests have the cheapest or the most expensive encoding,
/// by call number: the environment decides when which is answered.
struct ScriptAuth {
    calls: AtomicUsize,
    /// calls before this number answer `early`, later ones `late`
    switch: usize,
    early: u8,
    late: u8,
    wide: bool,
}
impl Authenticator for ScriptAuth {}
impl Signer for ScriptAuth {
    fn sign(&self, _: &[u8]) -> Digest {
        let n = self.calls.fetch_add(1, Ordering::Relaxed);
        let b = if n < self.switch { self.early } else { self.late };
        if self.wide {
            Digest::from([b; 64])
        } else {
            Digest::from([b; 32])
        }
    }
}
impl Verifier for ScriptAuth {
    fn verify(&self, _: &[u8], _: &Digest) -> bool {
        true
    }
}
/// A pass-through cipher that answers the given nonces in turn.
struct ScriptCrypt {
    calls: AtomicUsize,
    nonces: Vec<u8>,
    wide: bool,
}
impl Bicrypter for ScriptCrypt {}
impl Encrypter for ScriptCrypt {
    fn encrypt(&self, b: &[u8], _: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        Ok(b.to_vec())
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        let n = self.calls.fetch_add(1, Ordering::Relaxed);
        let v = self.nonces[n % self.nonces.len()];
        AssociatedData::Nonce(if self.wide { Nonce::Nonce128Bits([v; 16]) } else { Nonce::Nonce96Bits([v; 12]) })
    }
}
impl Decrypter for ScriptCrypt {
    fn decrypt(&self, b: &[u8], _: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        Ok(b.to_vec())
    }
}

fn one(ctx: &Ctx, name: &str, limit: usize, len: usize, must: bool, i: &mut In, o: &mut Out, fill: u8) -> bool {
    ctx.eval();
    let data: Vec<u8> = if fill == 1 { payload(len as u8, len) } else { vec![fill; len] };
    let case = json!({"config": name, "limit": limit, "length": len});
    let packets = match o.process(&data) {
        Ok(p) => p,
        Err(e) => {
            if must {
                ctx.violation("shipped-limit-fails", &format!("[{}] limit {} length {}: sending failed: {}", name, limit, len, e), case);
            }
            return false;
        }
    };
    ctx.transitions.fetch_add(packets.len() as u64, Ordering::Relaxed);
    if let Some(p) = packets.iter().position(|p| p.len() > limit) {
        ctx.violation(
            &format!("packet-too-large:{}", name.split(' ').next().unwrap_or("")),
            &format!("[{}] limit {} length {}: packet {} of {} has {} bytes", name, limit, len, p, packets.len(), packets[p].len()),
            case,
        );
        return false;
    }
    let mut got = None;
    for (n, p) in packets.iter().enumerate() {
        match i.process(p) {
            Ok(Some(d)) if n + 1 == packets.len() => got = Some(d),
            Ok(None) if n + 1 < packets.len() => {}
            x => {
                ctx.violation("reassembly", &format!("[{}] limit {} length {}: packet {}/{} gave {:?}", name, limit, len, n, packets.len(), x.map(|o| o.map(|v| v.len())).map_err(|e| e.to_string())), case);
                return false;
            }
        }
    }
    match got {
        Some(d) if d == data => {
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            ctx.states.fetch_add(1, Ordering::Relaxed);
            if packets.len() > 1 {
                ctx.nontrivial.fetch_add(1, Ordering::Relaxed);
            }
            true
        }
        Some(_) => {
            ctx.violation("different-bytes", &format!("[{}] limit {} length {}: reassembled to other bytes", name, limit, len), case);
            false
        }
        None => {
            let k = if len == 0 { "empty-payload-lost" } else { "payload-lost" };
            ctx.violation(k, &format!("[{}] limit {} length {}: {} packets, nothing delivered", name, limit, len, packets.len()), case);
            false
        }
    }
}

enum Item {
    Real(AuthKind, CryptKind, usize),
    Scripted { wide: bool, switch: usize, early: u8, late: u8, nonces: Vec<u8>, nwide: bool, limit: usize },
}

pub fn run(ctx: &Ctx) -> i32 {
    let shipped: Vec<usize> = vec![
        NetTransmission::TcpEthernet.into(),
        NetTransmission::TcpDialup.into(),
        NetTransmission::UdpIpv4.into(),
        NetTransmission::UdpIpv6.into(),
    ];
    let mut items = vec![];
    let limits: Vec<usize> = if ctx.quick() {
        (1..360).step_by(3).chain((360..1600).step_by(97)).chain(shipped.iter().cloned()).collect()
    } else {
        (1..700).chain((700..1700).step_by(13)).chain(shipped.iter().cloned()).collect()
    };
    for a in AUTHS {
        for c in CRYPTS {
            for l in &limits {
                items.push(Item::Real(a, c, *l));
            }
        }
    }
    for wide in [false, true] {
        for (early, late) in [(0u8, 0xffu8), (0xff, 0), (0xff, 0xff), (0, 0)] {
            for switch in ctx.pick(vec![0, 1, 2, 3, 4, 6, 8, 11, 15], (0..24).collect::<Vec<_>>()) {
                for (nonces, nwide) in [(vec![0u8, 0xff], false), (vec![0xff, 0], true), (vec![0, 0xff], true)] {
                    for limit in ctx.pick(vec![200, 256, 300, 508, 1212], vec![160, 200, 230, 255, 256, 257, 280, 300, 400, 508, 509, 1212, 1500]) {
                        items.push(Item::Scripted { wide, switch, early, late, nonces: nonces.clone(), nwide, limit });
                    }
                }
            }
        }
    }
    par_items(ctx, &items, |ctx, _, it| match it {
        Item::Real(a, c, limit) => {
            crate::interpose::set_clock(Duration::from_secs(0));
            let limit = *limit;
            let name = format!("{:?}/{:?}", a, c);
            let (mut i, mut o) = pair(limit, Duration::from_secs(60), auth(*a, 1), crypt(*c, 1));
            let ship = shipped.contains(&limit);
            let mut lens: Vec<usize> = vec![0, 1, 2, 3, 4, 7, 12, 15, 16, 17, 22, 23, 24, 25, 40, 60, 64, 100];
            for k in [1usize, 2, 3, 7] {
                for d in [0isize, -1, 1] {
                    lens.push(((k * limit) as isize + d).max(0) as usize);
                    lens.push(((k * (limit / 2 + 1)) as isize + d).max(0) as usize);
                }
            }
            if ship {
                lens.extend(ctx.pick((0..=1300).step_by(1).collect::<Vec<_>>(), (0..=4200).collect()));
                lens.extend([65535, 65536, 70000, 200_000]);
            } else {
                // every length around the packet boundaries of this limit
                lens.extend(ctx.pick((0..140).step_by(1).collect::<Vec<_>>(), (0..420).collect()));
            }
            if limit % 50 == 0 {
                lens.extend([255, 256, 257, 1023, 4096, 9999]);
            }
            lens.sort();
            lens.dedup();
            for (n, len) in lens.into_iter().enumerate() {
                if ctx.stopped() {
                    return;
                }
                let ok = one(ctx, &name, limit, len, ship && len > 0, &mut i, &mut o, 1);
                if ok && n == 37 && limit % 89 == 0 {
                    ctx.sample(json!({"config": name, "limit": limit, "length": len}));
                }
            }
        }
        Item::Scripted { wide, switch, early, late, nonces, nwide, limit } => {
            crate::interpose::set_clock(Duration::from_secs(0));
            let name = format!("scripted-digest/nonce digest{} {:#x}->{:#x} at {} nonces{} {:?}", if *wide { 512 } else { 256 }, early, late, switch, if *nwide { 128 } else { 96 }, nonces);
            let a = DynAuth(Arc::new(ScriptAuth { calls: AtomicUsize::new(0), switch: *switch, early: *early, late: *late, wide: *wide }));
            let c = DynCrypt(Arc::new(ScriptCrypt { calls: AtomicUsize::new(0), nonces: nonces.clone(), wide: *nwide }));
            let (mut i, mut o) = pair(*limit, Duration::from_secs(60), a, c);
            for len in [1usize, 10, 60, 100, 150, 190, 200, 250, 300, 500, 700, 1000, 2500, 1, 60, 200, 2500] {
                one(ctx, &name, *limit, len, false, &mut i, &mut o, (len % 3 * 120) as u8);
            }
            ctx.outcome("scripted digests/nonces");
        }
    });
    // many packets: indices that need more bytes
    let many: Vec<(AuthKind, CryptKind, usize)> = vec![
        (AuthKind::Noop, CryptKind::Noop, ctx.pick(700, 70_000)),
        (AuthKind::Noop, CryptKind::Noop, 66_000),
        (AuthKind::Sha256, CryptKind::Gcm256, ctx.pick(700, 2000)),
        (AuthKind::Sha512, CryptKind::Siv256, 700),
        (AuthKind::Sha256, CryptKind::GcmSiv128, ctx.pick(700, 66_000)),
    ];
    par_items(ctx, &many, |ctx, _, (a, c, n)| {
        crate::interpose::set_clock(Duration::from_secs(0));
        let base = (20..600).find(|s| pair(*s, Duration::from_secs(60), auth(*a, 1), crypt(*c, 1)).1.process(&[1; 40]).is_ok()).unwrap();
        for limit in base..base + ctx.pick(4, 8) {
            let (mut i, mut o) = pair(limit, Duration::from_secs(60), auth(*a, 1), crypt(*c, 1));
            one(ctx, &format!("{:?}/{:?}", a, c), limit, *n, false, &mut i, &mut o, 1);
            ctx.outcome("many small packets");
        }
    });
    ctx.finish(
        "model_checking",
        "state = sender and receiver of one (authenticator, cipher, transmission limit) after the payloads before; transition = one packet emitted, measured and processed by the real receiver; trace = one payload sent and reassembled. Every listed limit with every listed length (contiguous ranges around all encoding and packet boundaries), plus signers and nonce sources whose encoded sizes the harness scripts by call number. evaluations counts payload lengths tried, also those refused; non-trivial: more than one packet. Oracle: every packet <= limit, and the real receiver reassembles exactly the payload.",
        true,
        &["payload lengths and limits beyond the listed ranges are not run"],
    )
}
