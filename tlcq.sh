#!/bin/bash
# quiet TLC for interactive use
exec tlc -metadir /tmp/tlcm.$$ "$@" 2>&1 | grep -vE '^(Linting|Computed|Parsing|Semantic|Starting|Computing|  Estim|  because|  calcul|TLC2 Ver|Running)'
