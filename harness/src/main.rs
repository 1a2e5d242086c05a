fn main() {
    dlhn_verif::cli::run(&dlhn_verif::props::all());
}
