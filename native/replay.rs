fn main() {
    if std::env::var_os("VERIF_CLI").is_some() { mapeditr::verif_harness::sym::cli_child(); return }
    mapeditr::verif_harness::sym::main(&mapeditr::verif_harness::table());
}
