mod alloc;
mod checks;
mod model;
mod zoo;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() -> std::process::ExitCode {
    vhcore::driver::run(checks::all())
}
