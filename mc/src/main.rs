#[macro_use]
mod dev;
mod cli;
mod cli2;
mod cso;
mod desktop;
mod fault;
mod fuse;
mod fw;
mod img;
mod malformed;
mod model;
mod ops;
mod pack;
mod read;
mod remap;
mod repack;
mod small;
#[cfg(feature = "web")]
mod front;
#[cfg(feature = "web")]
mod web;

use fw::CheckDef;

#[global_allocator]
static ALLOC: fw::CountingAlloc = fw::CountingAlloc;

const DESKTOP: &[&str] = &["tauri is replaced by a stand-in (window, events, one invoked command, argument decoding); the window is the real front end on the stand-ins of C25, its JavaScript glue (ops/tauri.js, picker/tauri.js) is replaced", "bounds as listed per group"];
#[cfg(feature = "web")]
const WEB: &[&str] = &["wasm-bindgen, js-sys, web-sys, yew and yewprint are replaced by stand-ins: an object model of JavaScript values, promises and the File System Access API, and a page that is rendered to a list of texts and buttons", "the application runs natively (64 bit), not as 32 bit WebAssembly", "bounds as listed per group"];
const MEM: &[&str] = &["bounds as listed per group; contents and names outside the enumerated alphabets are not covered"];

fn checks() -> Vec<CheckDef> {
    let mc = "model_checking";
    vec![
        CheckDef { id: "C01", level: mc, rule: "every source tree in the groups is packed by the real code and the image is decoded by an independent decoder", assumptions: MEM, run: pack::c01 },
        CheckDef { id: "C02", level: mc, rule: "every source tree in the groups is packed and every structural condition is evaluated on the image bytes", assumptions: MEM, run: pack::c02 },
        CheckDef { id: "C03", level: mc, rule: "every volume of an independent builder within the bounds is listed, scanned and searched by the real reader; each answer is compared with an independent decoding", assumptions: MEM, run: read::c03 },
        CheckDef { id: "C04", level: mc, rule: "every range in the groups is read by the real reader from every device kind and compared with the file's bytes", assumptions: MEM, run: read::c04 },
        CheckDef { id: "C05", level: mc, rule: "every image of an independent builder within the bounds is repacked twice by the real code with every copy strategy and decoded independently", assumptions: MEM, run: repack::c05 },
        CheckDef { id: "C06", level: mc, rule: "every source within the bounds is compressed by the real code; the sectors are compared with the plain image of the same source and with an independent decoding", assumptions: MEM, run: repack::c06 },
        CheckDef { id: "C07", level: mc, rule: "every combination of valid, damaged and missing descriptors at the four partition offsets is probed, read and repacked by the real code", assumptions: MEM, run: small::c07 },
        CheckDef { id: "C09", level: mc, rule: "every image of hostile names within the bounds is extracted by the real program without privileges; everything around the destination is compared before and after", assumptions: MEM, run: cli::c09 },
        CheckDef { id: "C10", level: "fault_enumeration", rule: "every image within the bounds is extracted; every truncation point and every I/O call fault in turn: success implies an exact destination", assumptions: MEM, run: cli::c10 },
        CheckDef { id: "C11", level: "fault_enumeration", rule: "every I/O call of every packing command misbehaves in turn, and space runs out at every enumerated size: success implies a complete image", assumptions: MEM, run: cli::c11 },
        CheckDef { id: "C12", level: "fault_enumeration", rule: "the process is killed, or a call fails, at every I/O call of every command; the surviving files are checked each time", assumptions: &["process kill, not power loss: the page cache survives"], run: cli::c12 },
        CheckDef { id: "C14", level: mc, rule: "every rule list within the bounds is applied by the real overlay to every host tree; the image and the listing are compared with an independent reading of the rules", assumptions: &["glob matching itself is the wax crate's"], run: remap::c14 },
        CheckDef { id: "C15", level: mc, rule: "every tree within the bounds and every single edit of it is checksummed by the real code and compared with an independent SHA3 construction", assumptions: MEM, run: small::c15 },
        CheckDef { id: "C16", level: mc, rule: "every request sequence, buffer size, resume point and read range within the bounds is sent to the real daemon over its FUSE device; replies are compared with the image", assumptions: &["the kernel side of FUSE is played by the harness (protocol 7.8), no kernel mount is made"], run: fuse::c16 },
        CheckDef { id: "C17", level: "fault_enumeration", rule: "for every operation, every environment call fails once (and from then on, and as end of file)", assumptions: MEM, run: fault::c17 },
        CheckDef { id: "C18", level: mc, rule: "every pair and triple of names within the bounds is compared by the real comparison and by an independent one", assumptions: MEM, run: small::c18 },
        CheckDef { id: "C19", level: mc, rule: "every sequence of reads, writes and length queries within the bounds runs on every device and on a byte array", assumptions: MEM, run: small::c19 },
        CheckDef { id: "C21", level: mc, rule: "every combination of rule list, option source, source form and output form within the bounds is run; images, listings and places are compared", assumptions: MEM, run: cli2::c21 },
        CheckDef { id: "C23", level: mc, rule: "every image within the bounds is shown by every reading command and compared with an independent decoding", assumptions: MEM, run: cli2::c23 },
        CheckDef { id: "C24", level: mc, rule: "every job list, option combination and spelling within the bounds is run and the resulting files are compared with the request", assumptions: MEM, run: cli2::c24 },
        CheckDef { id: "C26", level: mc, rule: "every source, destination, fault and name within the bounds goes through the real commands of the desktop application", assumptions: DESKTOP, run: desktop::c26 },
        #[cfg(feature = "web")]
        CheckDef { id: "C25", level: mc, rule: "every source, destination, promise outcome, change of the files and sequence of clicks within the bounds goes through the real browser front end", assumptions: WEB, run: web::c25 },
        CheckDef { id: "C22", level: mc, rule: "every operation runs in the synchronous build and in the asynchronous build under every pattern of pending results within the bounds", assumptions: MEM, run: fault::c22 },
        CheckDef { id: "C08", level: mc, rule: "every damaged image within the bounds is given to every reading operation; panic, abort, call budget, memory cap and wall clock are monitored", assumptions: MEM, run: malformed::c08 },
        CheckDef { id: "C13", level: mc, rule: "sources on both sides of every limit are packed; refusal or a faithful image is required", assumptions: MEM, run: pack::c13 },
        CheckDef { id: "C20", level: mc, rule: "the event history of every pack is replayed against the decoded image", assumptions: MEM, run: pack::c20 },
    ]
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[0].ends_with("fusermount3") {
        std::process::exit(fuse::fusermount());
    }
    let checks = checks();
    let get = |id: &str| checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown check {id}");
        std::process::exit(2);
    });
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in &checks {
                println!("{}", c.id);
            }
            0
        }
        Some("worker") => {
            let only = a.get(6).map(|g| (g.clone(), a[7].parse().unwrap()));
            fw::worker(get(&a[2]), a[3] == "thorough", only, Some((&a[4]).into()), std::path::Path::new(&a[5]))
        }
        Some("digests") => fault::print_digests(a[2] == "thorough"),
        Some("packhash") => fault::packhash(std::path::Path::new(&a[2])),
        Some("groups") => fw::list_groups(get(&a[2]), a[3] == "thorough"),
        Some("replay") => {
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&a[2]).expect("replay file")).expect("replay json");
            let s = |k: &str| v[k].as_str().unwrap().to_string();
            let out = std::env::temp_dir().join(format!("xmc-replay-{}.json", std::process::id()));
            let only = Some((s("group"), v["index"].as_u64().unwrap() as usize));
            let r = fw::worker(get(&s("property")), s("tier") == "thorough", only, None, &out);
            println!("{}", std::fs::read_to_string(&out).unwrap_or_default());
            let _ = std::fs::remove_file(&out);
            r
        }
        Some(id) => fw::parent(get(id), a.get(2).map(|s| s.as_str()).unwrap_or("quick")),
        None => {
            eprintln!("usage: xmc <ID> quick|thorough | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
