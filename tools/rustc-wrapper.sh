#!/bin/sh
# RUSTC_WRAPPER of the harness build: what /opt/vp/rustc-wrapper.sh does, and no sharing of generic
# instances between crates, so that the IR of a crate contains every instance it uses.
if [ "$CARGO_PKG_NAME" = svm-rs-builds ]; then
  case " $* " in
    *" --crate-name build_script_build "*) exec "$@" --cfg 'feature="_offline"' ;;
  esac
fi
case " $* " in
  *" --crate-name build_script"*|*" --crate-type proc-macro "*) exec "$@" ;;
  *" --crate-name "*" --emit=llvm-ir,link"*) RUSTC_BOOTSTRAP=1 exec "$@" -Zshare-generics=n ;;
esac
exec "$@"
