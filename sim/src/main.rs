mod alloc;
mod choice;
mod driver;
mod exec;
mod gen;
mod interpose;
mod net;
mod node;
mod past;
mod refimpl;
mod rt;
mod s_crash;
mod s_net;
mod s_sign;
mod s_store;
mod s_wallet;
mod sc;
mod typed;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// What a run of a property's check does.
fn scenario(focus: &'static str, run: u64) {
    let _ = run;
    match focus {
        "C02" | "C03" | "C04" | "C05" => s_sign::run(),
        "C09" => s_wallet::run(),
        "C10" | "C11" => s_store::run(),
        "C17" => s_crash::run(),
        _ => s_net::run(),
    }
}

/// Runs of the quick tier: about 20 s on 8 cores.
fn quick_runs(focus: &str) -> u64 {
    match focus {
        "C02" | "C03" | "C07" | "C08" => 45_000,
        "C04" | "C11" => 30_000,
        "C05" => 20_000,
        "C09" => 10_000,
        "C10" => 100_000,
        "C12" | "C15" => 45_000,
        "C17" => 20_000,
        _ => 30_000,
    }
}

/// What ran for real, what was a stand-in, and what is taken for granted.
fn describe(focus: &str) -> (Vec<String>, Vec<String>, Vec<String>) {
    let v = |x: &[&str]| x.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let mut real = v(&["stacks-rs, all features, built from /repo's working tree without changes", "secp256k1, ring, ripemd and the Rust standard library"]);
    let mut stub = v(&["scheduling: one simulated thread runs at a time, the seeded scheduler picks which", "clock_gettime, sleeping and getrandom: simulated"]);
    let mut asm = v(&[
        "cryptographic primitives (secp256k1, SHA-2, RIPEMD-160, HMAC) are correct and collisions are not met by chance",
        "threads switch at system calls, locks, allocations inside the library and simulated operations; data races on plain memory are left to Rust's type system",
        "the independent reference (own SIP-005 codec, signature rules, c32, base58, BIP-32) states the network's rules correctly",
    ]);
    match focus {
        "C02" | "C03" | "C04" | "C05" => {
            stub.extend(v(&["the bus over which cosigners and sponsors hand transactions over, and their disks", "the party that tampers in flight"]));
        }
        "C09" => {
            real.extend(v(&["bip32 and bip39 crates"]));
            stub.extend(v(&["process crash and restart: the library's state is dropped, only the phrase survives"]));
        }
        "C10" | "C11" => {
            stub.extend(v(&["the store: blocks lost, repeated, torn, flipped and transposed by the simulator", "allocator: counts and caps what one decode may take"]));
        }
        "C17" => {
            stub.extend(v(&["process incarnations: separate forks with other time, randomness and thread schedule; only the simulated disk survives a crash", "the node's log"]));
        }
        _ => {
            real.extend(v(&["ureq with its connection pool, url, serde and serde_json", "std::net, std::thread and std::sync above libc's symbols"]));
            stub.extend(v(&[
                "socket, connect, poll, send, recv, shutdown, getaddrinfo and the rest of libc's socket calls: simulated TCP with delays, segmentation, short and interrupted calls, resets, refusals and silence",
                "the nodes: HTTP/1.1 servers of the harness with an independent decoder and scripted answers",
            ]));
            asm.extend(v(&["plain http only: TLS is not simulated", "the kernel's TCP delivers a prefix of the stream in order or fails"]));
        }
    }
    (real, stub, asm)
}

fn main() {
    sc::install_hook();
    // built once before the first fork: TLS configuration, lazily initialised tables
    let _ = ureq::AgentBuilder::new().build();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.first().map(String::as_str) {
        Some("check") => driver::check(&driver::Args::parse(&a[1..])),
        Some("worker") => driver::worker(&driver::Args::parse(&a[1..])),
        Some("determinism") => driver::determinism(&driver::Args::parse(&a[1..])),
        Some("replay") => driver::replay(&a[1], a.get(2).is_some_and(|x| x == "--quiet")),
        _ => {
            eprintln!("simctl check|worker|determinism|replay");
            2
        }
    };
    std::process::exit(code);
}
