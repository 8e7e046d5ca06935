#![allow(dead_code)]
mod curves;
mod gad;
mod oracle;
#[cfg(feature = "p_bits")]
mod p_bits;
#[cfg(feature = "p_comp")]
mod p_comp;
#[cfg(feature = "p_conv")]
mod p_conv;
#[cfg(feature = "p_curve")]
mod p_curve;
#[cfg(feature = "p_groth")]
mod p_groth;
#[cfg(feature = "p_hash")]
mod p_hash;
#[cfg(feature = "p_num")]
mod p_num;
#[cfg(feature = "p_params")]
mod p_params;
#[cfg(feature = "p_sig")]
mod p_sig;
mod rcs;
mod small;
mod solve;

use gad::*;
use rand::SeedableRng;
use serde_json::json;

/// circuit shape: every gadget of the other properties, compared with and without values
fn c20(ctx: &mut Ctx) -> R<()> {
    ctx.only_shape = true;
    let all: Vec<(&str, fn(&mut Ctx) -> R<()>)> = vec![
        #[cfg(feature = "p_num")]
        ("C01", p_num::c01),
        #[cfg(feature = "p_num")]
        ("C02", p_num::c02),
        #[cfg(feature = "p_num")]
        ("C03", p_num::c03),
        #[cfg(feature = "p_bits")]
        ("C04", p_bits::c04),
        #[cfg(feature = "p_bits")]
        ("C05", p_bits::c05),
        #[cfg(feature = "p_hash")]
        ("C06", p_hash::c06),
        #[cfg(feature = "p_hash")]
        ("C07", p_hash::c07),
        #[cfg(feature = "p_curve")]
        ("C10", p_curve::c10),
        #[cfg(feature = "p_curve")]
        ("C11", p_curve::c11),
        #[cfg(feature = "p_curve")]
        ("C12", p_curve::c12),
        #[cfg(feature = "p_curve")]
        ("C13", p_curve::c13),
        #[cfg(feature = "p_sig")]
        ("C15", p_sig::c15),
        #[cfg(feature = "p_comp")]
        ("C21", p_comp::c21),
        #[cfg(feature = "p_comp")]
        ("C22", p_comp::c22),
        #[cfg(feature = "p_groth")]
        ("programs", p_groth::prog_shapes::<fawkes_crypto::native::bn256::Fr>),
        #[cfg(feature = "p_groth")]
        ("programs over F7", p_groth::prog_shapes::<small::Fp<7>>),
    ];
    for (n, f) in all {
        let r = attempt(|| f(ctx));
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) if f.what.starts_with("circuit shape depends") || f.what.starts_with("synthesis without a witness") => return Err(f),
            Ok(Err(f)) => ctx.notes.push(format!("sweep {} stopped early by a failure that is not about shape: {}", n, f.what)),
            Err(e) => ctx.notes.push(format!("sweep {} stopped early by a panic: {}", n, e)),
        }
    }
    Ok(())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    let thorough = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let seed: u32 = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1);
    let outp = a.get(4).cloned().unwrap_or("/dev/stdout".into());
    let lits: Vec<num::bigint::BigUint> = a
        .get(5)
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| s.split_whitespace().filter_map(|x| x.parse().ok()).collect())
        .unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    let mut ctx = Ctx {
        rng: rand::XorShiftRng::from_seed([seed, 0x9e3779b9, 0x7f4a7c15, 0x1234567]),
        thorough,
        evals: 0,
        nontrivial: 0,
        truncated: 0,
        exhausted: 0,
        samples: vec![],
        notes: vec![],
        lits,
        only_shape: false,
    };
    let t = std::time::Instant::now();
    let ctxr = &mut ctx;
    let res = attempt(move || match prop.as_str() {
        #[cfg(feature = "p_num")]
        "C01" => p_num::c01(ctxr),
        #[cfg(feature = "p_num")]
        "C02" => p_num::c02(ctxr),
        #[cfg(feature = "p_num")]
        "C03" => p_num::c03(ctxr),
        #[cfg(feature = "p_bits")]
        "C04" => p_bits::c04(ctxr),
        #[cfg(feature = "p_bits")]
        "C05" => p_bits::c05(ctxr),
        #[cfg(feature = "p_hash")]
        "C06" => p_hash::c06(ctxr),
        #[cfg(feature = "p_hash")]
        "C07" => p_hash::c07(ctxr),
        #[cfg(feature = "p_curve")]
        "C08" => p_curve::c08(ctxr),
        #[cfg(feature = "p_curve")]
        "C09" => p_curve::c09(ctxr),
        #[cfg(feature = "p_curve")]
        "C10" => p_curve::c10(ctxr),
        #[cfg(feature = "p_curve")]
        "C11" => p_curve::c11(ctxr),
        #[cfg(feature = "p_curve")]
        "C12" => p_curve::c12(ctxr),
        #[cfg(feature = "p_curve")]
        "C13" => p_curve::c13(ctxr),
        #[cfg(feature = "p_sig")]
        "C14" => p_sig::c14(ctxr),
        #[cfg(feature = "p_sig")]
        "C15" => p_sig::c15(ctxr),
        #[cfg(feature = "p_conv")]
        "C16" => p_conv::c16(ctxr),
        #[cfg(feature = "p_conv")]
        "C17" => p_conv::c17(ctxr),
        #[cfg(feature = "p_groth")]
        "C18" => p_groth::c18(ctxr),
        #[cfg(feature = "p_groth")]
        "C19" => p_groth::c19(ctxr),
        #[cfg(feature = "p_params")]
        "C23" => p_params::c23(ctxr),
        #[cfg(feature = "p_params")]
        "C26" => p_params::c26(ctxr),
        "C20" => c20(ctxr),
        #[cfg(feature = "p_comp")]
        "C21" => p_comp::c21(ctxr),
        #[cfg(feature = "p_comp")]
        "C22" => p_comp::c22(ctxr),
        _ => fail("unknown property", ""),
    });
    let f = match res {
        Ok(Ok(())) => None,
        Ok(Err(f)) => Some(f),
        Err(e) => Some(Fail { what: format!("unexpected panic: {}", e), input: "(see message)".into() }),
    };
    let j = json!({
        "ok": f.is_none(),
        "what": f.as_ref().map(|f| f.what.clone()),
        "input": f.as_ref().map(|f| f.input.clone()),
        "evaluations": ctx.evals,
        "nontrivial": ctx.nontrivial,
        "exhausted_r1cs": ctx.exhausted,
        "truncated_r1cs": ctx.truncated,
        "samples": ctx.samples,
        "notes": ctx.notes,
        "seconds": t.elapsed().as_secs_f64(),
    });
    std::fs::write(outp, serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
    std::process::exit(if f.is_some() { 1 } else { 0 });
}
