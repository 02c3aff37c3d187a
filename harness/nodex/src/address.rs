//! cip1852-first-address, run as a program against a simulated indexer.
use crate::node::hex;
use crate::tools::program;
use bech32::ToBase32;
use common::{ensure, ensure_eq, Case, Rng, R};
use cryptoxide::{blake2b::Blake2b, digest::Digest, hmac::Hmac, pbkdf2::pbkdf2, sha2::Sha512};
use ed25519_bip32::{DerivationScheme::V2, XPrv, XPub};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// The address made of the keys at chain/index `payment` and `stake` of an account, derived on
/// the private side.
fn address(account: &XPrv, network: u8, payment: (u32, u32), stake: (u32, u32)) -> String {
    let mut bytes = vec![network];
    for (a, b) in [payment, stake] {
        let key = account.derive(V2, a).derive(V2, b).public().public_key();
        let mut h = Blake2b::new(28);
        h.input(&key);
        let mut out = [0; 28];
        h.result(&mut out);
        bytes.extend(out);
    }
    bech32::encode(if network == 0 { "addr_test" } else { "addr" }, bytes.to_base32(), bech32::Variant::Bech32).unwrap()
}

/// the account key 1852'/1815'/n' of an entropy without a passphrase
fn account(entropy: &[u8], n: u32) -> XPrv {
    let mut k = [0; 96];
    pbkdf2(&mut Hmac::new(Sha512::new(), &[]), entropy, 4096, &mut k);
    [1852, 1815, n].iter().fold(XPrv::normalize_bytes_force3rd(k), |k, i| k.derive(V2, 0x8000_0000 + i))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fault {
    Close,    // the connection ends without an answer
    Cut,      // in the middle of the answer
    Status,   // an error status
    Garbage,  // no JSON
    Missing,  // a field is missing
}

#[derive(Clone, Default, Debug)]
struct Indexer {
    blocks: Vec<(String, Vec<String>)>, // hash, addresses first used in it
    grows: Vec<Vec<String>>,            // blocks that come after the next requests
}

struct World {
    nets: BTreeMap<String, Indexer>,
    fault: Option<(usize, Fault)>, // which request
    requests: Vec<(String, Value)>,
    served: Option<(String, usize)>, // network and height of the last answer about the latest block
    odd: Option<String>,
    rng: Rng,
}

impl World {
    fn answer(&mut self, method: &str, url: &str, kind: Option<&str>, body: &[u8]) -> (u16, Vec<u8>, Option<Fault>) {
        let n = self.requests.len();
        let v: Value = serde_json::from_slice(body).unwrap_or(Value::Null);
        self.requests.push((url.to_string(), v.clone()));
        let fault = self.fault.filter(|f| f.0 == n).map(|f| f.1);
        let no = |s: &str| (400, s.as_bytes().to_vec(), None);
        if method != "POST" {
            self.odd = Some(format!("a request is a {method} to {url}"));
            return no("method");
        }
        if kind.is_none_or(|k| !k.starts_with("application/json")) {
            self.odd = Some(format!("a request to {url} is of type {kind:?}"));
            return no("type");
        }
        let Some((net, what)) = url.strip_prefix("https://gate.flint-wallet.com/").and_then(|x| x.split_once("/carp/")) else {
            self.odd = Some(format!("a request goes to {url}"));
            return (404, b"not found".to_vec(), None);
        };
        let Some(ix) = self.nets.get_mut(net) else {
            return (404, b"not found".to_vec(), None);
        };
        let mut out = match what {
            "block/latest" => {
                let Some(offset) = v.get("offset").and_then(|o| o.as_u64()) else { return no("offset") };
                let Some(i) = ix.blocks.len().checked_sub(1 + offset as usize) else { return no("too deep") };
                self.served = Some((net.to_string(), i));
                json!({"block": {"era": 6, "hash": ix.blocks[i].0, "height": i, "epoch": i / 21600, "slot": i * 20, "extra": [1, null]}})
            }
            "address/used" => {
                let Some(i) = v.get("untilBlock").and_then(|h| h.as_str()).and_then(|h| ix.blocks.iter().position(|b| b.0 == h)) else { return no("unknown block") };
                let Some(asked) = v.get("addresses").and_then(|a| a.as_array()) else { return no("addresses") };
                let used: Vec<&Value> = asked.iter().filter(|a| ix.blocks[..=i].iter().any(|b| b.1.iter().any(|x| Some(x.as_str()) == a.as_str()))).collect();
                json!({ "addresses": used })
            }
            _ => return (404, b"not found".to_vec(), None),
        };
        if !ix.grows.is_empty() {
            let used = ix.grows.remove(0);
            let mut h = [0u8; 32];
            self.rng.fill(&mut h);
            ix.blocks.push((hex(&h), used));
        }
        match fault {
            Some(Fault::Status) => {
                // what an error page says is no answer
                let text = if what == "address/used" && self.rng.chance(1, 2) { out.to_string() } else if self.rng.chance(1, 2) { "oops".to_string() } else { json!({"message": "internal error"}).to_string() };
                return (*self.rng.pick(&[400, 404, 409, 500, 502, 503]), text.into_bytes(), None);
            }
            Some(Fault::Garbage) => return (200, self.rng.pick(&["", "<html>", "{", "null", "[]", "\"used\""]).as_bytes().to_vec(), None),
            Some(Fault::Missing) => {
                out = if what == "block/latest" { json!({"block": {"era": 6, "height": 4, "epoch": 1, "slot": 5}}) } else { json!({"address": []}) }
            }
            _ => {}
        }
        (200, out.to_string().into_bytes(), fault)
    }
}

fn serve(mut s: TcpStream, w: &Mutex<World>) -> Option<()> {
    s.set_read_timeout(Some(Duration::from_secs(20))).ok()?;
    let mut b = vec![];
    let end = loop {
        let mut x = [0; 4096];
        let n = s.read(&mut x).ok()?;
        if n == 0 {
            return None;
        }
        b.extend_from_slice(&x[..n]);
        if let Some(e) = b.windows(4).position(|w| w == b"\r\n\r\n") {
            break e;
        }
    };
    let head = String::from_utf8_lossy(&b[..end]).to_string();
    let field = |name: &str| head.lines().skip(1).find_map(|l| l.split_once(':').filter(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.trim().to_string()));
    let len: usize = field("content-length")?.parse().ok()?;
    let mut body = b[end + 4..].to_vec();
    while body.len() < len {
        let mut x = [0; 4096];
        let n = s.read(&mut x).ok()?;
        if n == 0 {
            return None;
        }
        body.extend_from_slice(&x[..n]);
    }
    let mut first = head.lines().next()?.split(' ');
    let (method, url) = (first.next()?.to_string(), first.next()?.to_string());
    let (status, out, fault) = w.lock().unwrap().answer(&method, &url, field("content-type").as_deref(), &body);
    if fault == Some(Fault::Close) {
        return None;
    }
    let head = format!("HTTP/1.1 {status} X\r\ncontent-type: application/json\r\ncontent-length: {}\r\nconnection: close\r\n\r\n", out.len());
    s.write_all(head.as_bytes()).ok()?;
    let upto = if fault == Some(Fault::Cut) { out.len() / 2 } else { out.len() };
    s.write_all(&out[..upto]).ok()
}

struct Outcome {
    code: Option<i32>,
    lines: Vec<String>,
    err: String,
}

fn run_tool(args: &[String], w: &Arc<Mutex<World>>) -> Result<Outcome, String> {
    let l = TcpListener::bind(("127.0.0.1", 0)).map_err(|e| e.to_string())?;
    let port = l.local_addr().map_err(|e| e.to_string())?.port();
    let stop = Arc::new(AtomicBool::new(false));
    let (w2, stop2) = (w.clone(), stop.clone());
    let server = std::thread::spawn(move || {
        for s in l.incoming() {
            if stop2.load(Ordering::SeqCst) {
                return;
            }
            if let Ok(s) = s {
                serve(s, &w2);
            }
        }
    });
    let mut child = Command::new(program("cip1852-first-address")?)
        .args(args)
        .env("VERIF_HTTP_PORT", port.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| e.to_string())?;
    let t = Instant::now();
    let code = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s.code();
        }
        if t.elapsed() > Duration::from_secs(60) {
            let _ = child.kill();
            return Err("the program does not end".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let (mut out, mut err) = (String::new(), String::new());
    child.stdout.take().unwrap().read_to_string(&mut out).map_err(|e| e.to_string())?;
    child.stderr.take().unwrap().read_to_string(&mut err).map_err(|e| e.to_string())?;
    stop.store(true, Ordering::SeqCst);
    let _ = TcpStream::connect(("127.0.0.1", port));
    let _ = server.join();
    Ok(Outcome { code, lines: out.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect(), err })
}

fn arguments(r: &mut Rng, key: &str, net: &str) -> Vec<String> {
    let mut one = |short: &str, long: &str, v: &str| match r.below(4) {
        0 => vec![format!("-{short}"), v.to_string()],
        1 => vec![format!("--{long}={v}")],
        _ => vec![format!("--{long}"), v.to_string()],
    };
    let (a, b) = (one("p", "public-key", key), one("n", "network", net));
    if r.chance(1, 2) {
        [a, b].concat()
    } else {
        [b, a].concat()
    }
}

/// vectors of the ledger library's own tests
pub fn known(c: &mut Case) -> R {
    const ENTROPY: [u8; 20] = [0x0c, 0xcb, 0x74, 0xf3, 0x6b, 0x7d, 0xa1, 0x64, 0x9a, 0x81, 0x44, 0x67, 0x55, 0x22, 0xd4, 0xd8, 0x09, 0x7c, 0x64, 0x12];
    let k = account(&ENTROPY, 0);
    for (n, net, want) in [
        (0, "testnet", "addr_test1qpu5vlrf4xkxv2qpwngf6cjhtw542ayty80v8dyr49rf5ewvxwdrt70qlcpeeagscasafhffqsxy36t90ldv06wqrk2qum8x5w"),
        (1, "mainnet", "addr1q9u5vlrf4xkxv2qpwngf6cjhtw542ayty80v8dyr49rf5ewvxwdrt70qlcpeeagscasafhffqsxy36t90ldv06wqrk2qld6xc3"),
    ] {
        ensure_eq!(address(&k, n, (0, 0), (2, 0)), want, "the monitor's derivation");
        let mut nets = BTreeMap::new();
        nets.insert(net.to_string(), Indexer { blocks: vec![("ab".repeat(32), vec![want.to_string()])], grows: vec![] });
        let w = Arc::new(Mutex::new(World { nets, fault: None, requests: vec![], served: None, odd: None, rng: Rng::new(1) }));
        let o = run_tool(&arguments(&mut c.rng, &hex(k.public().as_ref()), net), &w)?;
        ensure!(o.code == Some(0), "{net}: status {:?}: {}", o.code, o.err);
        ensure!(o.lines.iter().any(|l| l == want), "{net}: {want} is not printed: {:?}", o.lines);
        ensure_eq!(o.lines.last().map(|s| s.as_str()), Some("used"), "{net}: result");
        c.count("known_answers", 1);
    }
    c.distinct(1);
    Ok(())
}

pub fn run(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut e = [0; 96];
    r.fill(&mut e);
    let key = XPrv::normalize_bytes_force3rd(e);
    let public: XPub = key.public();
    let net = *r.pick(&["mainnet", "testnet"]);
    let (id, other) = if net == "mainnet" { (1, "testnet") } else { (0, "mainnet") };
    let want = address(&key, id, (0, 0), (2, 0));
    // addresses of the same account that are not the first one
    let decoys: Vec<String> = [((0, 1), (2, 0)), ((1, 0), (2, 0)), ((2, 0), (0, 0)), ((0, 0), (2, 1)), ((0, 0), (0, 0)), ((2, 0), (2, 0))].iter().map(|(p, s)| address(&key, id, *p, *s)).collect();
    let mut nets = BTreeMap::new();
    let mut when = None;
    for n in [net, other] {
        let mut ix = Indexer::default();
        let len = r.range(1, 6);
        for _ in 0..len {
            let mut h = [0; 32];
            r.fill(&mut h);
            ix.blocks.push((hex(&h), vec![]));
        }
        for d in &decoys {
            if r.chance(1, 2) {
                let i = r.below(len);
                ix.blocks[i].1.push(d.clone());
            }
        }
        let grows = r.below(3);
        ix.grows = vec![vec![]; grows];
        if n == net {
            // never, in a block there is, or in one that comes while the program runs
            match r.below(5) {
                0 | 1 => {}
                2 if grows > 0 => ix.grows[0].push(want.clone()),
                x => {
                    let i = if x == 3 { len - 1 } else { r.below(len) };
                    ix.blocks[i].1.push(want.clone());
                    when = Some(i);
                }
            }
        } else {
            let i = r.below(len);
            ix.blocks[i].1.extend([want.clone(), address(&key, 1 - id, (0, 0), (2, 0))]);
        }
        nets.insert(n.to_string(), ix);
    }
    let len = nets[net].blocks.len();
    let fault = if r.chance(1, 3) { Some((r.below(2), *r.pick(&[Fault::Close, Fault::Cut, Fault::Status, Fault::Garbage, Fault::Missing]))) } else { None };
    let mut text = hex(public.as_ref());
    if r.chance(1, 4) {
        text = text.to_uppercase();
    }
    // an unusable command line
    let bad = r.chance(1, 6);
    let (cut, more, name) = (r.range(0, 127), r.range(1, 33), r.below(6));
    let args = if bad {
        match r.below(7) {
            0 => arguments(r, &text[..cut], net),
            1 => arguments(r, &format!("{text}{}", "00".repeat(more)), net),
            2 => arguments(r, &format!("0x{text}"), net),
            3 => arguments(r, &text.replacen(&text[3..4], "g", 1), net),
            4 => arguments(r, &text, ["Mainnet", "preprod", "main", "testnets", "1", "mainnet "][name]),
            5 => vec!["--network".into(), net.into()],
            _ => vec!["--public-key".into(), text.clone()],
        }
    } else {
        arguments(r, &text, net)
    };
    let rng = Rng::new(r.next());
    c.t(format!("{args:?}; {net} of {len} blocks, used in {when:?}; {fault:?}"));
    let w = Arc::new(Mutex::new(World { nets, fault, requests: vec![], served: None, odd: None, rng }));
    let o = run_tool(&args, &w)?;
    let w = w.lock().unwrap();
    c.t(format!("status {:?}, printed {:?}, asked {:?}", o.code, o.lines, w.requests));
    let said = |x: &str| o.lines.iter().any(|l| l == x);
    let failed = || -> R {
        ensure!(o.code != Some(0), "a failure ends with status 0: {:?}", o.lines);
        ensure!(!said("used") && !said("unused"), "a failed run prints a result: {:?}", o.lines);
        ensure!(!o.err.trim().is_empty(), "a failure is not explained");
        Ok(())
    };
    if let Some(x) = &w.odd {
        return Err(x.clone());
    }
    if bad {
        failed()?;
        ensure!(w.requests.is_empty(), "a request is made for an unusable command line: {:?}", w.requests);
        ensure!(!o.lines.iter().any(|l| l.starts_with("addr")), "an address is printed for an unusable command line: {:?}", o.lines);
        c.count("unusable_command_lines", 1);
        c.distinct(c.trace_hash());
        return Ok(());
    }
    ensure!(said(&want), "the first address of the account is {want}; printed: {:?}; stderr: {}", o.lines, o.err);
    ensure!(o.lines.iter().filter(|l| l.starts_with("addr")).count() == 1, "more than one address is printed: {:?}", o.lines);
    for (url, _) in &w.requests {
        ensure!(url.contains(&format!("/{net}/")), "{net}: a request goes to {url}");
    }
    if fault.is_some() {
        failed()?;
        c.count("failing_requests", 1);
    } else {
        ensure!(o.code == Some(0), "status {:?}: {}", o.code, o.err);
        // the latest block as of the request for it
        let at = w.served.as_ref().map(|s| s.1).ok_or("the latest block is never asked for")?;
        ensure!(at >= len - 1, "the result is as of block {at} of {len}");
        let used = w.nets[net].blocks[..=at].iter().any(|b| b.1.contains(&want));
        ensure!(said(if used { "used" } else { "unused" }) && !said(if used { "unused" } else { "used" }), "the address is {}used, printed: {:?}", if used { "" } else { "un" }, o.lines);
        c.count(if used { "used_addresses" } else { "unused_addresses" }, 1);
    }
    c.count("addresses_compared", 1);
    c.count("requests", w.requests.len() as u64);
    c.distinct(c.trace_hash());
    Ok(())
}
