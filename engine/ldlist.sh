#!/bin/bash
# stands in for the linker: keeps the object files and archives the compiler hands over, for the engine to link as bitcode
mkdir -p "${SYMX_LINK_DIR:?}"; : > "$SYMX_LINK_DIR/list"; k=0
while [ $# -gt 0 ]; do
  case "$1" in
    -o) : > "$2"; shift;;
    */symbols.o) ;;
    *.o) k=$((k+1)); cp "$1" "$SYMX_LINK_DIR/root$k.o"; echo "$SYMX_LINK_DIR/root$k.o" >> "$SYMX_LINK_DIR/list";;
    *.rlib) echo "$1" >> "$SYMX_LINK_DIR/list";;
  esac
  shift
done
