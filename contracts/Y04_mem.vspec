unit Y04
title handles into in-memory files honour their mode and position
packages vroot/synthfs vroot/internal/openflag
include std
include membuf
