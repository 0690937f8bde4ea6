unit Y03
title in-memory files are exact byte arrays
packages vroot/synthfs vroot/internal/openflag
include std
include membuf
