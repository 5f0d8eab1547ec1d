#[allow(unused_imports, unused_variables, non_camel_case_types, dead_code, unused_parens)]
mod types {
    // DERIVE_RS is set in .cargo/config.toml, and by `check` for other generated programs
    include!(env!("DERIVE_RS"));
}
fn main() {
    let mut v = Vec::new();
    types::register(&mut v);
    harness::jobs::main(v);
}
