//! Erasing the types of a style, all type combinations: `erase TABLES SEED VALUES`
use colorz_driver::rend::*;
use colorz_driver::*;

seam!();

fn erase_jobs() -> Vec<Job> {
    let mut v: Vec<Job> = vec![];
    jobs!(v, erase,
        [FNone FOptColor FColor FAnsi FXterm FCss FRgb FSAnsi FSXterm FSCss FSRgb],
        [FNone FOptColor FColor FAnsi FXterm FCss FRgb FSAnsi FSXterm FSCss FSRgb],
        [FNone FOptColor]);
    jobs!(v, erase, [FNone FColor], [FNone FOptColor], [FColor FSRgb FAnsi FXterm FCss FRgb FSAnsi FSXterm FSCss]);
    jobs!(v, const_erase, [FNone FSAnsi FSAnsiDefault FSXterm FSCss FSRgb], [FNone FSAnsi FSXterm FSCss FSRgb], [FNone FSAnsi FSAnsiDefault FSXterm FSCss FSRgb]);
    v
}


fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    clean_env();
    quiet_panics();
    let cx = context(&a);
    run_jobs(&cx, &erase_jobs());
    finish(&cx);
}
