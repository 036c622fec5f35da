# sourced by the daemons' shells: signals are reported, and only sent to their own children
kill() {
  "$LAB_BIN/killrec" "$@"
  local sig="" a n=0 rc=0
  for a in "$@"; do
    case "$a" in
      -l|-L) builtin kill "$@"; return ;;
      -*) sig="$a" ;;
      %*) builtin kill $sig "$a" || rc=1 ;;
      *) if [ "$a" -lt 4200000 ] 2>/dev/null; then builtin kill $sig "$a" || rc=1; fi ;;
    esac
  done
  return $rc
}
