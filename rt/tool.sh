#!/bin/sh
# Stands in for the assembler or the linker: records how it is called, fails
# when it is told to, and otherwise runs the real tool.
#   TOOL_LOG   directory; a line per call goes to <tool>.log there
#   TOOL_FAIL  tool:k:how, what happens at the kth call of the tool
PATH=/usr/local/bin:/usr/bin:/bin
export PATH
name=${0##*/}
short=${name##*-}
printf '%s\n' "$*" >> "$TOOL_LOG/$short.log"
k=$(wc -l < "$TOOL_LOG/$short.log")
case "$TOOL_FAIL" in
"$short:$k:"*)
	how=${TOOL_FAIL##*:}
	: > "$TOOL_LOG/injected"
	case "$how" in
	exit*) exit "${how#exit}" ;;
	late*) sleep 0.1; exit "${how#late}" ;;
	kill*) kill -"${how#kill}" $$; sleep 5 ;;
	after*)	# does its work and then fails
		"$name" "$@"
		exit "${how#after}" ;;
	partial)
		out=
		while [ $# -gt 0 ]; do
			[ "$1" = -o ] && out=$2
			shift
		done
		echo partial > "$out"
		exit 1 ;;
	esac ;;
esac
exec "$name" "$@"
