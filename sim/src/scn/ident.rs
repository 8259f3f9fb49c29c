//! C13: a key handed between nodes, restarts and representations keeps its identity.
use crate::core::*;
use crate::gen::*;
use crate::refimpl as rf;
use libgoldilocks::goldilocks as gl;
use libgoldilocks::{PrehashSigner, SecretKey, SigningKey};
use ops::{Item, Key, Kind, SerFault, TapeVal};

#[derive(Clone)]
enum Form {
    Bytes(Vec<u8>),
    Hex(String),
    Sec(SecretKey),
    Sig(SigningKey),
    Rec(Vec<u8>, Kind),
}
fn name(f: &Form) -> &'static str {
    match f {
        Form::Bytes(_) => "byte slice",
        Form::Hex(_) => "hex text",
        Form::Sec(_) => "secret-key object",
        Form::Sig(_) => "signing-key object",
        Form::Rec(..) => "serialised record",
    }
}
struct Node {
    form: Form,
    id: usize, // which key it holds
}

pub fn scenario(c: &mut Ctx) {
    crate::os::surroundings(c);
    let nk = c.range(1, 3);
    let mut keys: Vec<K> = vec![fresh_key(c)];
    for _ in 1..nk {
        let k = if c.chance(1, 2) {
            let k = keys[0];
            sibling(c, &k)
        } else {
            fresh_key(c)
        };
        keys.push(k);
    }
    let pubs: Vec<K> = keys.iter().map(rf::derive).collect();
    let mut nodes: Vec<Node> = (0..nk).map(|i| Node { form: Form::Bytes(keys[i].to_vec()), id: i }).collect();
    let steps = c.range(3, 25);
    for _ in 0..steps {
        c.now_us += 1000;
        let i = c.below(nodes.len() as u32) as usize;
        let id = nodes[i].id;
        let k = keys[id];
        match c.weighted(&[8, 3, 3, 2, 3]) {
            0 => convert(c, &mut nodes[i], &k, &pubs[id]),
            1 => {
                // hand over a copy to another node
                let n = Node { form: nodes[i].form.clone(), id };
                c.count("op.handover");
                c.log(|| format!("node {} hands key {} over as {}", i, id, name(&n.form)));
                c.nontrivial = true;
                if nodes.len() < 5 {
                    nodes.push(n);
                } else {
                    let j = c.below(5) as usize;
                    nodes[j] = n;
                }
            }
            2 => {
                // restart: objects are gone, only what was exported survives
                c.fault("fault.restart");
                if c.chance(1, 6) {
                    crate::os::set_clock(c);
                }
                let f = match &nodes[i].form {
                    Form::Sig(s) => {
                        let s = *s;
                        if c.chance(1, 2) {
                            match guard(|| ops::to_string(&Key::Signing(s))) {
                                Ok(Ok(t)) => Form::Rec(t.into_bytes(), Kind::Signing),
                                o => c.fail("export-failed", format!("{:?}", o)),
                            }
                        } else {
                            Form::Bytes(s.to_bytes().to_vec())
                        }
                    }
                    Form::Sec(s) => match guard(|| ops::to_string(&Key::Secret(*s))) {
                        Ok(Ok(t)) => Form::Rec(t.into_bytes(), Kind::Secret),
                        o => c.fail("export-failed", format!("{:?}", o)),
                    },
                    f => f.clone(),
                };
                c.log(|| format!("node {} restarts with a {}", i, name(&f)));
                nodes[i].form = f;
            }
            3 => {
                // an import of the wrong length
                let n = match c.below(4) {
                    0 => c.below(57) as usize,
                    1 => 58 + c.logu(300) as usize,
                    2 => [0, 56, 58, 114][c.below(4) as usize],
                    _ => 57 * c.below(5) as usize,
                };
                let mut b = k.to_vec();
                b.resize(n, 0);
                if c.chance(1, 3) {
                    // a file with the key's bytes that an editor or transfer touched
                    b = if c.chance(2, 3) { retyped(c, &k[..]) } else { refragmented(c, &k[..]) };
                }
                let n = b.len();
                if n == 57 {
                    continue;
                }
                c.fault("fault.wrong_length_import");
                c.count("check.length_error");
                let r = guard(|| SigningKey::from_bytes(&b).map_err(|e| format!("{:?}", e)));
                c.log(|| format!("import of {} bytes: {:?}", n, r.as_ref().map(|r| r.is_ok())));
                let want = format!("InvalidPrivKeyLengthErrro({})", n);
                match r {
                    Ok(Err(e)) if e == want => {}
                    Ok(Ok(s)) => c.fail("wrong-length-accepted", format!("{} bytes gave key {}", n, hx(&s.to_bytes()))),
                    o => c.fail("wrong-length-misreported", format!("{} bytes: {:?}, expected {}", n, o.map(|r| r.map(|s| hx(&s.to_bytes()))), want)),
                }
            }
            _ => {
                // use it
                let f = nodes[i].form.clone();
                use_key(c, &f, &k, &pubs[id]);
            }
        }
        c.ev(i as u64 ^ hash_str(name(&nodes[i].form)));
    }
    for n in &nodes {
        let f = n.form.clone();
        use_key(c, &f, &keys[n.id], &pubs[n.id]);
    }
}

fn to_signing(c: &mut Ctx, f: &Form) -> SigningKey {
    let route = c.below(3);
    let r = guard(|| match f {
        Form::Bytes(b) => match route {
            0 => SigningKey::from_slice(b),
            1 => SigningKey::from_bytes(b).expect("from_bytes"),
            _ => SigningKey::from(SecretKey::from_bytes(b)),
        },
        Form::Hex(h) => match route {
            0 => SigningKey::from_str(h),
            1 => SigningKey::from(SecretKey::from_str(h)),
            _ => SigningKey::from_slice(&gl::hex_to_private_key(h)),
        },
        Form::Sec(s) => SigningKey::from(*s),
        Form::Sig(s) => *s,
        Form::Rec(b, _) => match if route == 0 { ops::from_reader(Kind::Signing, &mut &b[..]) } else { ops::from_slice(Kind::Signing, b) } {
            Ok(Key::Signing(s)) => s,
            o => panic!("{:?}", o),
        },
    });
    c.count("op.import");
    match r {
        Ok(s) => s,
        Err(e) => c.fail("import-failed", format!("importing a good {} failed: {}", name(f), e)),
    }
}

fn convert(c: &mut Ctx, n: &mut Node, k: &K, pk: &K) {
    let from = name(&n.form);
    let to = c.below(5);
    let f = n.form.clone();
    let nf = match to {
        0 => {
            let s = to_signing(c, &f);
            Form::Bytes(s.to_bytes().to_vec())
        }
        1 => {
            // export through a record, keep the digits (either case)
            let s = to_signing(c, &f);
            let mut calls = 0;
            let t = match guard(|| ops::ser_tape(&Key::Signing(s), true, SerFault::None, &mut calls)) {
                Ok(Ok(TapeVal::Str(t))) => t,
                o => c.fail("export-failed", format!("{:?}", o)),
            };
            Form::Hex(if c.chance(1, 3) { t.to_uppercase() } else { t })
        }
        2 => {
            let s = to_signing(c, &f);
            Form::Sec(*s.secret_key())
        }
        3 => Form::Sig(to_signing(c, &f)),
        _ => {
            let kind = if c.chance(1, 2) { Kind::Signing } else { Kind::Secret };
            let s = to_signing(c, &f);
            let key = if kind == Kind::Signing { Key::Signing(s) } else { Key::Secret(*s.secret_key()) };
            match guard(|| ops::to_string(&key)) {
                Ok(Ok(t)) => Form::Rec(t.into_bytes(), kind),
                o => c.fail("export-failed", format!("{:?}", o)),
            }
        }
    };
    c.log(|| format!("{} -> {}", from, name(&nf)));
    c.count("op.convert");
    // exported forms spell the original bytes
    let ok = match &nf {
        Form::Bytes(b) => b[..] == k[..],
        Form::Hex(h) => super::store::spelled(h).as_ref() == Some(k),
        Form::Sec(s) => *s == SecretKey::from_bytes(k),
        Form::Sig(s) => s.to_bytes() == *k && s.verifying_key().as_bytes() == pk,
        Form::Rec(b, _) => super::store::record_meaning(b).as_ref() == Some(k),
    };
    c.count("check.export");
    if !ok {
        c.fail("secret-changed", format!("key {} became something else when turned from {} into {}", hx(k), from, name(&nf)));
    }
    n.form = nf;
}

fn use_key(c: &mut Ctx, f: &Form, k: &K, pk: &K) {
    let s = to_signing(c, f);
    c.count("check.identity");
    if s.to_bytes() != *k || *s.secret_key() != SecretKey::from_bytes(k) {
        c.fail("secret-changed", format!("key {} imported from {} has secret bytes {}", hx(k), name(f), hx(&s.to_bytes())));
    }
    if s.verifying_key().as_bytes() != pk {
        c.fail("wrong-public-key", format!("key {} imported from {} carries public key {}, its own is {}", hx(k), name(f), hx(s.verifying_key().as_bytes()), hx(pk)));
    }
    let routes = guard(|| {
        let mut v = vec![("ed448_derive_public", gl::ed448_derive_public(k))];
        if k[56] & 0x80 == 0 {
            v.push(("private_to_public", gl::private_to_public(k)));
            v.push(("secret_to_public(private_to_secret)", gl::secret_to_public(&gl::private_to_secret(k))));
            // the expanded form is a key of the raw-scalar form with the
            // same identity
            let e = gl::private_to_secret(k);
            v.push(("ed448_derive_public(private_to_secret)", gl::ed448_derive_public(&e)));
            v.push(("SigningKey::from_slice(private_to_secret)", SigningKey::from_slice(&e).verifying_key().as_bytes().try_into().expect("57 bytes")));
        } else {
            v.push(("secret_to_public", gl::secret_to_public(k)));
        }
        v
    });
    match routes {
        Ok(v) => {
            for (n, p) in v {
                c.count("check.derivation_route");
                if p != *pk {
                    c.fail("derivation-routes-disagree", format!("{} of {} is {}, expected {}", n, hx(k), hx(&p), hx(pk)));
                }
            }
        }
        Err(e) => c.fail("derivation-panicked", format!("key {}: {}", hx(k), e)),
    }
    // the public key travels too
    let way = c.below(5);
    let up = c.chance(1, 3);
    let r = guard(|| {
        let v = *s.verifying_key();
        let h = rf::tohex(v.as_bytes());
        let h = if up { h.to_uppercase() } else { h };
        match way {
            0 => libgoldilocks::VerifyingKey::from_bytes(v.as_bytes()),
            1 => libgoldilocks::VerifyingKey::from_str(&h),
            2 => match ops::from_slice(Kind::Verifying, format!("\"{}\"", h).as_bytes()) {
                Ok(Key::Verifying(v)) => v,
                o => panic!("{:?}", o),
            },
            3 => match ops::to_string(&Key::Verifying(v)).map(|t| ops::from_reader(Kind::Verifying, &mut t.as_bytes())) {
                Ok(Ok(Key::Verifying(v))) => v,
                o => panic!("{:?}", o),
            },
            _ => {
                let w = v;
                w.clone()
            }
        }
    });
    c.count("check.public_key_handover");
    match r {
        Ok(v) if v.as_bytes() == pk && v == *s.verifying_key() => {}
        Ok(v) => c.fail("public-key-changed", format!("public key {} handed over by way {} became {}", hx(pk), way, hx(v.as_bytes()))),
        Err(e) => c.fail("public-key-handover-failed", format!("public key {} by way {}: {}", hx(pk), way, e)),
    }
    let m = message(c, 5000);
    if k[56] & 0x80 == 0 && c.chance(1, 3) {
        c.count("op.sign_expanded");
        match guard(|| gl::ed448_sign(&gl::private_to_secret(k), &m)) {
            Ok(sig) => {
                c.count("check.expanded_signature");
                let low = rf::decode(pk).is_some_and(|d| d.low_order);
                let v = rf::verify(pk, &sig, &m);
                if v == rf::Verdict::Reject || (v == rf::Verdict::Grey && !low) {
                    c.fail("expanded-invalid", format!("key {} message {}: the signature made with its expanded form, {}, is {:?} under its public key", hx(k), hx(&m), hx(&sig), v));
                }
                c.ev(hash_bytes(&sig));
            }
            Err(e) => c.fail("expanded-failed", format!("key {}: {}", hx(k), e)),
        }
    }
    let r = guard(|| crate::os::placed(&m, |m| s.sign_prehash(m)).map(|s| s.as_slice().to_vec()).map_err(|e| format!("{:?}", e)));
    c.count("op.sign_prehash");
    match r {
        Ok(Ok(sig)) => {
            c.log(|| format!("prehash signature over {} bytes: {} bytes", m.len(), sig.len()));
            c.count("check.prehash_signature");
            if sig.len() != 171 || sig[114..] != pk[..] {
                c.fail("prehash-layout", format!("key {}: {} bytes, tail {}", hx(k), sig.len(), hx(&sig[sig.len().min(114)..])));
            }
            let low = rf::decode(pk).is_some_and(|d| d.low_order);
            let v = rf::verify(pk, &sig[..114], &m);
            if v == rf::Verdict::Reject || (v == rf::Verdict::Grey && !low) {
                c.fail("prehash-invalid", format!("key {} message {}: signature {} is {:?} under its own public key", hx(k), hx(&m), hx(&sig[..114]), v));
            }
            c.ev(hash_bytes(&sig));
        }
        o => c.fail("prehash-failed", format!("key {}: {:?}", hx(k), o)),
    }
}
