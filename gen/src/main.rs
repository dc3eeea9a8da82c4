mod derive_checks;
mod e2e;
mod gen_checks;
mod idl;
mod parse_checks;
mod refparse;
mod sem;
mod wire_checks;

fn main() -> std::process::ExitCode {
    let mut v = parse_checks::all();
    v.extend(gen_checks::all());
    v.extend(wire_checks::all());
    v.extend(derive_checks::all());
    vhcore::driver::run(v)
}
