#!/bin/bash
# Decides one property on the working tree of /repo.
# usage: check.sh ID [quick|thorough]
set -u
cd "$(dirname "$0")" || exit 2
id=$1
tier=${2:-${VERIF_TIER:-quick}}
case $id in
  C09) what=iter; bin=target/iter/release/mc-iter ;;
  C19) what=asan; bin=target/asan/x86_64-unknown-linux-gnu/release/mc
       export MC_NO_AS_LIMIT=1
       export ASAN_OPTIONS="detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=165:max_free_fill_size=65536:free_fill_byte=90:detect_stack_use_after_return=1:allocator_may_return_null=0:abort_on_error=1:handle_abort=0" ;;
  C23) what=nfa;  bin=target/nfa/release/mc ;;
  *)   what=mc;   bin=target/mc/release/mc ;;
esac
bash ./build.sh $what || exit 2
exec "$(pwd)/$bin" run "$id" "$tier"
