#!/bin/sh
# RUSTC_WRAPPER: switches on svm-rs-builds' own feature "_offline" for its build
# script, which otherwise downloads the list of solc releases.
if [ "$CARGO_PKG_NAME" = svm-rs-builds ]; then
  case " $* " in
    *" --crate-name build_script_build "*) exec "$@" --cfg 'feature="_offline"' ;;
  esac
fi
exec "$@"
