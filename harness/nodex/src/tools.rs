//! The command-line block fetchers, run as programs against a node on the loopback network.
use crate::node::{hex, Blk, Chain, Fault, Node};
use crate::oura::short;
use crate::source::{address, block, grow};
use cardano_sdk::protocol as p;
use common::{ensure, ensure_eq, Case, R};
use dcspark_blockchain_source_full::cardano::{NetworkConfiguration, Point};
use std::path::{Path, PathBuf};
use std::process::Stdio;
use std::time::Duration;
use tokio::io::{AsyncBufReadExt, AsyncReadExt, BufReader, Lines};
use tokio::process::{ChildStdout, Command};

pub const LINE_WAIT: Duration = Duration::from_secs(40);

/// the programs lie beside this one
pub fn program(name: &str) -> Result<PathBuf, String> {
    let p = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name(name);
    if !p.exists() {
        eprintln!("{} is missing", p.display());
        std::process::exit(2);
    }
    Ok(p)
}

pub struct Child {
    child: tokio::process::Child,
    lines: Lines<BufReader<ChildStdout>>,
    err: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
}

impl Child {
    pub fn spawn(path: &Path, args: &[String]) -> Result<Child, String> {
        let mut child = Command::new(path)
            .args(args)
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .kill_on_drop(true)
            .spawn()
            .map_err(|e| format!("spawning {}: {e}", path.display()))?;
        let lines = BufReader::new(child.stdout.take().unwrap()).lines();
        let err = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
        let (mut e, err2) = (child.stderr.take().unwrap(), err.clone());
        tokio::spawn(async move {
            let mut b = [0; 2000];
            while let Ok(n) = e.read(&mut b).await {
                if n == 0 {
                    break;
                }
                let mut v = err2.lock().unwrap();
                if v.len() < 4000 {
                    v.extend_from_slice(&b[..n]);
                }
            }
        });
        Ok(Child { child, lines, err })
    }
    /// the next line; None when the output has ended; an error if nothing happens for that long
    pub async fn line(&mut self, wait: Duration) -> Result<Option<String>, String> {
        match tokio::time::timeout(wait, self.lines.next_line()).await {
            Ok(l) => l.map_err(|e| e.to_string()),
            Err(_) => Err(format!("nothing was printed for {wait:?}; stderr: {}", self.stderr())),
        }
    }
    /// a line that comes within this time
    pub async fn line_within(&mut self, wait: Duration) -> Result<Option<String>, String> {
        match tokio::time::timeout(wait, self.lines.next_line()).await {
            Ok(l) => l.map_err(|e| e.to_string()),
            Err(_) => Ok(None),
        }
    }
    pub async fn status(&mut self) -> Result<std::process::ExitStatus, String> {
        tokio::time::timeout(LINE_WAIT, self.child.wait()).await.map_err(|_| "the program does not end".to_string())?.map_err(|e| e.to_string())
    }
    pub fn stderr(&self) -> String {
        String::from_utf8_lossy(&self.err.lock().unwrap()).chars().take(400).collect()
    }
    pub async fn kill(&mut self) {
        let _ = self.child.kill().await;
    }
}

fn line(b: &Blk) -> String {
    format!("Block #{}, point: {}@{}, raw cbor hex: {}", b.raw.number, hex(&b.raw.hash), b.raw.slot, hex(&b.bytes))
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Net {
    Plain,
    Faults,
    Backlog,
}

pub fn net(c: &mut Case, mode: Net) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().map_err(|e| e.to_string())?;
    let r = rt.block_on(net_history(c, mode));
    rt.shutdown_timeout(Duration::from_secs(1));
    r
}

async fn net_history(c: &mut Case, mode: Net) -> R {
    let r = &mut c.rng;
    let (name, base, magic) = match r.below(4) {
        0 => ("mainnet", NetworkConfiguration::mainnet(), 764824073),
        1 => ("preprod", NetworkConfiguration::preprod(), 1),
        2 => ("preview", NetworkConfiguration::preview(), 2),
        _ => ("sancho", NetworkConfiguration::sancho(), 4),
    };
    let era = base.shelley_era_config.clone();
    // the chain has the block that the network's configuration starts from
    let mut chain: Chain = vec![];
    let mut start = block(r, None, 0, [3; 32], true);
    if let Point::BlockHeader { slot_nb, hash } = &base.from {
        let mut raw = start.raw.clone();
        raw.slot = u64::from(*slot_nb);
        let h = hash.to_string();
        raw.hash = std::array::from_fn(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap());
        raw.number = r.below(5_000_000) as u64;
        let bytes = cml_multi_era::encode(&raw, &[]);
        start = std::sync::Arc::new(Blk { raw, bytes });
    }
    chain.push(start);
    let n = match (mode, r.below(6)) {
        (Net::Backlog, _) => r.range(1010, 1800),
        (_, 0) => 0,
        (_, 1) => r.range(30, 80),
        _ => r.range(1, 20),
    };
    grow(r, &mut chain, n, &era, [3; 32], mode == Net::Backlog);
    let mut since = match r.below(5) {
        0 | 1 => None,
        _ => Some(chain[r.below(chain.len())].clone()),
    };
    let unknown = mode == Net::Plain && r.chance(1, 12);
    if unknown {
        since = Some(block(r, None, 77, [4; 32], true));
    }
    let mut node = Node::start(chain.clone(), address(), r.fork()).await?;
    node.st.lock().unwrap().slow = mode == Net::Plain && r.chance(1, 3);
    let mut down = false;
    if mode == Net::Faults {
        let k = r.below(8);
        let f = *r.pick(&[
            Fault::OnAccept,
            Fault::AfterPropose,
            Fault::RefuseHandshake,
            Fault::OnIntersect,
            Fault::OnRange,
            Fault::AfterStart,
            Fault::AfterBlocks(k),
            Fault::AfterBlocks(k),
            Fault::InBlock(k),
            Fault::InBlock(k),
            Fault::BeforeDone,
            Fault::NoBlocks,
            Fault::WrongBlockReply(k),
            Fault::BadBlock(k),
            Fault::BadBlock(k),
        ]);
        node.st.lock().unwrap().fault = Some(f);
        // a node that does not come back
        down = r.chance(1, 6);
    }
    let mut args: Vec<String> = vec!["--relay-host".into(), node.ip.to_string(), "--relay-port".into(), node.port.to_string()];
    if name != "mainnet" || r.chance(1, 2) {
        args.extend(["--network".into(), name.into()]);
    }
    let mut from = vec![match &base.from {
        Point::BlockHeader { slot_nb, hash } => p::Point::from_raw(u64::from(*slot_nb), hash.as_ref()).unwrap(),
        Point::Origin => p::Point::Origin,
    }];
    if let Some(b) = &since {
        args.extend(["--since".into(), format!("{},{}", b.raw.slot, hex(&b.raw.hash))]);
        from = vec![b.point()];
    }
    let mut child = Child::spawn(&program("cardano-net-fetcher")?, &args)?;
    // the chain grows, and may switch to another branch, while it is fetched
    let mut got: Vec<String> = vec![];
    let mut switched = 0;
    let mut growth = r.below(4);
    let switches = mode == Net::Plain && r.chance(1, 4);
    let mut next = r.below(6);
    while let Some(l) = child.line(LINE_WAIT).await? {
        got.push(l);
        if got.len() > next && growth > 0 {
            growth -= 1;
            let r = &mut c.rng;
            next = got.len() + r.below(12);
            if switches && r.chance(1, 2) && chain.len() > 2 {
                let keep = r.range(1, chain.len());
                chain.truncate(keep);
                switched += 1;
            }
            let k = r.range(1, 8);
            grow(r, &mut chain, k, &era, [3; 32], mode == Net::Backlog);
            node.st.lock().unwrap().chain = chain.clone();
        }
        if down && !node.st.lock().unwrap().faults_hit.is_empty() {
            node.down().await;
        }
        ensure!(got.len() < 8000, "the program prints for ever");
    }
    let status = child.status().await?;
    let s = node.st.lock().unwrap();
    let note = format!(
        "{name} since {:?}: {} lines, {status}; requests {:?}; faults {:?}; stderr {}",
        since.as_ref().map(|b| b.raw.slot),
        got.len(),
        s.log.iter().map(|r| (r.found, r.range.is_some(), r.served, r.cut, r.bad, r.done, r.chain.len())).collect::<Vec<_>>(),
        s.faults_hit,
        child.stderr()
    );
    c.t(note);
    if let Some(e) = &s.protocol_error {
        return Err(format!("protocol error: {e}"));
    }
    for h in &s.handshakes {
        ensure_eq!(h, &p::HandshakeNode::propose(p::Magic(magic), p::DiffusionMode::InitiatorOnly, &[p::Version::V6, p::Version::V7, p::Version::V8]), "handshake of {name}");
    }
    // each request goes on from the last block that was printed, and what it brings is printed
    let mut at = 0;
    let mut ended = false;
    for (i, q) in s.log.iter().enumerate() {
        ensure!(!ended, "another request was made after the node had nothing more to give");
        ensure!(q.points == from, "request {i} starts from {:?}, the last block is {from:?}", q.points);
        let whole = matches!(q.found, Some(Some(_))) && !q.cut && (q.range.is_none() || q.served);
        let Some(Some(n)) = q.found else {
            ended = true;
            continue;
        };
        let more = &q.chain[n + 1..];
        if more.is_empty() {
            ended = true;
        }
        if whole && !more.is_empty() {
            ensure!(q.range.is_some(), "request {i} found {} new blocks, and did not ask for them", more.len());
        }
        for (k, b) in more.iter().enumerate() {
            // a request that was cut: the next one shows how far it came
            if !whole && s.log.get(i + 1).is_some_and(|q| q.points == from) {
                break;
            }
            let want = line(b);
            match got.get(at) {
                Some(l) if *l == want && q.bad != Some(k + 1) => {
                    at += 1;
                    from = vec![b.point()];
                    c.count("blocks_printed", 1);
                }
                _ if !whole => break,
                Some(l) => return Err(format!("line {at} is\n  {}\nwhere block #{} of request {i} is next:\n  {}", short(l), b.raw.number, short(&want))),
                None => return Err(format!("block #{} of request {i} is missing: {} lines were printed, {status}", b.raw.number, got.len())),
            }
        }
    }
    ensure!(at == got.len(), "a line too many: {}", short(&got[at]));
    // the end: the node has nothing more, or something went wrong
    let bad = s.log.iter().any(|q| q.bad.is_some());
    let hit = !s.faults_hit.is_empty();
    ensure!(ended || hit, "the program ended while the node had more to give: {status}");
    if !hit {
        ensure!(status.success(), "the program failed: {status}");
    }
    let connected = !s.log.is_empty();
    if matches!(s.faults_hit.first(), Some(Fault::OnAccept | Fault::AfterPropose | Fault::RefuseHandshake)) && !connected {
        ensure!(!status.success(), "the program did not fail though it could not connect");
        c.count("failed_connections", 1);
    }
    if bad {
        // a block that cannot be read is not passed over in silence
        ensure!(!status.success() || ended && !s.log.last().is_some_and(|q| q.cut), "a block could not be read, and the program ended well");
        c.count("undecodable_blocks", 1);
    }
    c.count("chains_switched", switched);
    c.count("requests", s.log.len() as u64);
    c.count("faults", s.faults_hit.len() as u64);
    c.count("connections", s.accepted as u64);
    if s.log.iter().take(s.log.len().saturating_sub(1)).any(|q| q.cut) {
        c.count("resumed_after_a_loss", 1);
    }
    if since.is_none() {
        c.count("runs_from_the_default_point", 1);
    }
    if unknown {
        c.count("unknown_points", 1);
    }
    c.distinct(common::mix(got.iter().fold(1, |h, l| common::mix(h ^ common::hash_str(l)))));
    Ok(())
}

/// command lines the fetchers cannot use: an explained error, and nothing printed
pub fn misuse(c: &mut Case) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().map_err(|e| e.to_string())?;
    let r = rt.block_on(misused(c));
    rt.shutdown_timeout(Duration::from_secs(1));
    r
}

async fn misused(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut chain: Chain = vec![];
    grow(r, &mut chain, 5, &NetworkConfiguration::preprod().shelley_era_config, [3; 32], false);
    let node = Node::start(chain.clone(), address(), r.fork()).await?;
    let h = hex(&chain[2].raw.hash);
    let slot = chain[2].raw.slot;
    // points that are none
    let net = r.chance(1, 2);
    let shape = r.below(if net { 12 } else { 9 });
    let point = match shape {
        0 => String::new(),
        1 => ",".into(),
        2 => format!("{slot}"),
        3 => h.clone(),
        4 => format!("{h},{slot}"),
        5 => format!("-1,{h}"),
        6 => format!("18446744073709551616,{h}"),
        7 => format!("{slot}.5,{h}"),
        8 => format!(",{h}"),
        9 => format!("{slot},"),
        10 => format!("{slot},{}", &h[..r.below(64)]),
        _ => {
            let k = r.below(64);
            format!("{slot},{}{}{}", &h[..k], *r.pick(&["g", " ", "é", "0x"]), &h[k + 1..])
        }
    };
    let fine = format!("{slot},{h}");
    let names = ["", "Mainnet", "testnet2", "mainnet ", "sanchonet", "3", "preprod\n", "-1", "99999999999999999999", "77", "nowhere"];
    let (mut host, mut name, mut since, mut port) = (Some(node.ip.to_string()), None, Some(fine), Some(node.port.to_string()));
    let what = r.below(4);
    match what {
        0 | 1 => since = Some(point),
        2 => name = Some(r.pick(&names).to_string()),
        _ => match r.below(3) {
            0 => host = None,
            1 => port = None,
            _ => port = Some((*r.pick(&["", "x", "70000", "-3"])).to_string()),
        },
    }
    let mut args: Vec<String> = vec![];
    let mut arg = |n: &str, v: Option<String>| {
        if let Some(v) = v {
            args.push(format!("--{n}={v}"));
        }
    };
    if net {
        arg("relay-host", host);
        arg("relay-port", port);
        arg("network", name);
    } else {
        let bearer = match &port {
            None => None,
            Some(p) if p.parse::<u16>().is_ok() => Some("tcp".to_string()),
            Some(p) => Some(p.clone()),
        };
        arg("bearer", bearer);
        arg("socket", host.map(|h| format!("{h}:{}", node.port)));
        arg("magic", name);
    }
    arg("since", since);
    let tool = if net { "cardano-net-fetcher" } else { "oura-block-fetcher" };
    c.t(format!("{tool} {args:?}"));
    let mut child = Child::spawn(&program(tool)?, &args)?;
    if let Some(l) = child.line(LINE_WAIT).await? {
        return Err(format!("{tool} {args:?} printed {}", short(&l)));
    }
    let status = child.status().await?;
    tokio::time::sleep(Duration::from_millis(5)).await;
    let err = child.stderr();
    if what < 2 && shape >= 9 && status.success() {
        // taken for a point that the node does not have
        c.count("unusable_ids", 1);
        return Ok(());
    }
    ensure!(!status.success(), "{tool} {args:?} ended well");
    ensure!(status.code().is_some() && !err.contains("panicked"), "{tool} {args:?} broke down, {status}: {err}");
    ensure!(!err.trim().is_empty(), "{tool} {args:?} ended with {status} and no explanation");
    c.count("unusable_command_lines", 1);
    c.distinct(common::hash_str(&format!("{tool} {what} {err}")));
    Ok(())
}
