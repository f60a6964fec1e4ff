mod check;
mod explore;
mod m_chain;
mod m_factory;
mod m_ft;
mod m_lockup;
mod m_multisig;
mod m_pool;
mod m_simple;
mod m_system;
mod pool;
mod record;
mod vm;
mod world;
use check::*;

fn registry() -> Vec<Check> {
    let mut v = vec![];
    v.extend(m_simple::checks());
    v.extend(m_pool::checks());
    v.extend(m_multisig::checks());
    v.extend(m_ft::checks());
    v.extend(m_factory::checks());
    v.extend(m_lockup::checks());
    v.extend(m_system::checks());
    v.extend(m_chain::checks());
    v
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    record::init();
    let checks = registry();
    let find = |id: &str| {
        checks.iter().find(|c| c.prop == id).unwrap_or_else(|| {
            eprintln!("no check for {}", id);
            std::process::exit(3)
        })
    };
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("list") => {
            for c in &checks {
                println!("{} {}", c.prop, c.contracts.join(" "));
            }
            0
        }
        Some("needs") => {
            println!("{}", find(&a[2]).contracts.join(" "));
            0
        }
        Some("check") => {
            let c = find(&a[2]);
            let tier = a.get(3).cloned().unwrap_or_else(|| "quick".into());
            // contract panics are results, not failures of the checker; a panic in the checker is an error
            match std::panic::catch_unwind(|| run_check(c, &tier)) {
                Ok(x) => x,
                Err(_) => 3,
            }
        }
        Some("replay") => run_replay(&checks, &a[2]),
        _ => {
            eprintln!("usage: mc list | needs ID | check ID [quick|thorough] | replay FILE");
            3
        }
    };
    std::process::exit(code);
}
