//! All type combinations x all effect sets: `sweep TABLES SEED VALUES`
use colorz_driver::eng::Delta;
use colorz_driver::rend::*;
use colorz_driver::*;

seam!();

fn sweep_jobs() -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    #[cfg(not(feature = "full"))]
    {
        jobs!(v, combo,
            [FNone FOptColor FColor FAnsi FXterm FCss FRgb FSAnsi FSAnsiDefault FSXterm FSCss FSRgb FOptAnsi FOptSRgb FOptOpt FOptNone],
            [FNone FOptColor FColor FAnsi FXterm FCss FRgb FSAnsi FSAnsiDefault FSXterm FSCss FSRgb FOptAnsi FOptSRgb FOptOpt FOptNone],
            [FNone FOptColor FSXterm]);
        jobs!(v, combo, [FNone FOptColor], [FNone FSRgb],
            [FColor FAnsi FXterm FCss FRgb FSAnsi FSAnsiDefault FSCss FSRgb FOptAnsi FOptSRgb FOptOpt FOptNone]);
    }
    #[cfg(feature = "full")]
    jobs!(v, combo,
        [FNone FOptColor FColor FAnsi FXterm FCss FRgb FSAnsi FSAnsiDefault FSXterm FSCss FSRgb FOptAnsi FOptSRgb FOptOpt FOptNone],
        [FNone FOptColor FColor FAnsi FXterm FCss FRgb FSAnsi FSAnsiDefault FSXterm FSCss FSRgb FOptAnsi FOptSRgb FOptOpt FOptNone],
        [FNone FOptColor FColor FAnsi FXterm FCss FRgb FSAnsi FSAnsiDefault FSXterm FSCss FSRgb FOptAnsi FOptSRgb FOptOpt FOptNone]);
    v
}

fn clear_all(cx: &Cx) {
    // the clear-all sequence, once and for all
    let mut b = B::new();
    let n0 = allocs();
    let _ = write!(b, "{}", Style::clear_all());
    let n1 = allocs() - n0;
    let mut rep = cx.report.lock().unwrap();
    let d = cx.t.run(b.bytes());
    if d != (Delta { reset: true, ..Delta::default() }) {
        rep.bad("C03", || format!("{{\"what\":\"clear_all does not reset everything\",\"bytes\":\"{}\"}}", show(b.bytes())))
    }
    let mut b2 = B::new();
    let _ = write!(b2, "{:?}", Style::clear_all());
    if b2.bytes() != b.bytes() {
        rep.bad("C03", || "{\"what\":\"clear_all differs between Display and Debug\"}".into())
    }
    if n1 > 0 {
        rep.bad("C21", || "{\"what\":\"clear_all allocates\"}".into())
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    clean_env();
    quiet_panics();
    let cx = context(&a);
    run_jobs(&cx, &sweep_jobs());
    guarded(&cx, "clear_all", &mut |_| clear_all(&cx));
    finish(&cx);
}
