//! Runs a script on the native SDK in a process of its own (the system tape is
//! one global per process) and brings back the tape it dumps.
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

use script::{In, Op, Out, Val};
use serde_json::Value;

use crate::gen::{event, pid};

fn run(ops: &[Op]) {
    for o in ops {
        match o {
            Op::AddId(p) => mozak_sdk::add_identity(pid(*p)),
            Op::RmId => mozak_sdk::rm_identity(),
            Op::Emit(e) => mozak_sdk::event_emit(event(e)),
            Op::Write { public, data } => {
                let kind = if *public { mozak_sdk::InputTapeType::PublicTape } else { mozak_sdk::InputTapeType::PrivateTape };
                let n = mozak_sdk::write(&kind, data).expect("writing is infallible");
                assert_eq!(n, data.len(), "bytes written");
            }
            Op::Call { callee, arg, ret, body } => {
                let got: Val = mozak_sdk::call_send(pid(*callee), arg.clone(), |a: Val| {
                    assert!(a == *arg, "the resolver got another argument");
                    run(body);
                    ret.clone()
                });
                assert!(got == *ret, "the caller got another return value");
            }
            o => unreachable!("{o:?} in a native script"),
        }
    }
}

pub fn child() -> ! {
    let mut buf = vec![];
    std::io::stdin().read_to_end(&mut buf).unwrap();
    run(&In(&buf).ops());
    mozak_sdk::native::dump_proving_files();
    std::process::exit(0)
}

pub struct Dump { pub json: Value, pub text: String, pub debug: String }

pub fn scratch() -> std::path::PathBuf {
    static N: AtomicUsize = AtomicUsize::new(0);
    let d = std::env::temp_dir().join(format!("h-sdk-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// `Err` is what the SDK printed when it panicked.
pub fn dump(ops: &[Op]) -> Result<Dump, String> {
    let mut o = Out::default();
    o.ops(ops);
    let dir = scratch();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("native-run").current_dir(&dir)
        .stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().unwrap();
    c.stdin.take().unwrap().write_all(&o.0).unwrap();
    let out = c.wait_with_output().unwrap();
    let r = if out.status.success() {
        let text = std::fs::read_to_string(dir.join("out/tape.json")).unwrap_or_default();
        let debug = std::fs::read_to_string(dir.join("out/tape.debug")).unwrap_or_default();
        serde_json::from_str(&text).map_err(|e| format!("the dumped tape is not JSON: {e}")).map(|json| Dump { json, text, debug })
    } else {
        Err(String::from_utf8_lossy(&out.stderr).into_owned())
    };
    std::fs::remove_dir_all(&dir).unwrap();
    r
}
