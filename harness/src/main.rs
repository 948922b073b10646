mod sys; mod ffi; mod pool; mod drv; mod gen; mod chk; mod util; mod p_stream; mod p_mem; mod p_ref; mod p_model; mod p_enc; mod p_pos; mod p_gram; mod p_api; mod p_char; mod p_ext; mod p_unk; mod p_wf; mod p_set; mod p_ind; mod p_res; mod names;
use std::time::{Duration, Instant};

pub struct Env { pub rx: &'static ffi::Api, pub ex: &'static ffi::Api, pub o: pool::Opts, pub part: Option<String> }
impl Env { pub fn thorough(&self) -> bool { self.o.tier == "thorough" } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let verif = get("--verif").unwrap_or("/verif".into());
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let tier = if tier == "thorough" { tier } else { "quick".into() };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let so = format!("{}/build/target/debug/librexpat.so", verif);
    let rx = Box::leak(Box::new(ffi::Api::load(&so, "rexpat", true).unwrap_or_else(|e| { eprintln!("ERROR: {}", e); std::process::exit(3) })));
    let sys = "/usr/lib/x86_64-linux-gnu/libexpat.so.1";
    let ex = Box::leak(Box::new(ffi::Api::load(sys, "libexpat", false).unwrap_or_else(|e| { eprintln!("ERROR: {}", e); std::process::exit(3) })));
    let f = ffi::opt_sym(sys, "XML_SetReparseDeferralEnabled");
    if !f.is_null() { unsafe { drv::REPARSE = Some(std::mem::transmute(f)); } }
    let prop = a.get(1).cloned().unwrap_or_default();
    let only = get("--case").map(|c| (c.parse().unwrap(), get("--sub").map_or(u64::MAX, |s| s.parse().unwrap())));
    let deadline = if tier == "quick" { Some(Instant::now() + Duration::from_secs(std::env::var("VP_DEADLINE").ok().and_then(|s| s.parse().ok()).unwrap_or(600))) } else { std::env::var("VP_DEADLINE").ok().and_then(|s| s.parse().ok()).map(|s| Instant::now() + Duration::from_secs(s)) };
    let o = pool::Opts { prop: "", tier, seed, only, hang_s: 30, verif, deadline, nworkers: 8, verbose: a.iter().any(|x| x == "-v"), maxviol: std::env::var("VP_MAXVIOL").ok().and_then(|s| s.parse().ok()).unwrap_or(40) };
    let env = Env { rx, ex, o, part: get("--part") };
    if prop == "dump" { p_ref::dump(&env, &a[2..]); return; }
    let r = match prop.as_str() {
        "C23" => p_res::c23(&env), "C17" => p_ind::c17(&env), "C24" => p_set::c24(&env), "C01" => p_stream::c01(&env), "C02" => p_stream::c02(&env), "C03" => p_stream::c03(&env), "C04" => p_stream::c04(&env),
        "C05" => p_mem::c05(&env), "C06" => p_mem::c06(&env), "C07" => p_enc::c07(&env), "C08" => p_ref::c08(&env), "C09" => p_model::c09(&env), "C10" => p_model::c10(&env), "C11" => p_model::c11(&env), "C15" => p_model::c15(&env), "C12" => p_pos::c12(&env), "C14" => p_api::c14(&env), "C22" => p_gram::c22(&env), "C13" => p_pos::c13(&env), "C16" => p_ext::c16(&env), "C18" => p_char::c18(&env), "C20" => p_unk::c20(&env), "C21" => p_wf::c21(&env), "C19" => p_char::c19(&env),
        _ => { eprintln!("ERROR: unknown check {:?}", prop); 3 }
    };
    std::process::exit(r);
}
