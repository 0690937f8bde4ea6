unit H02
title Content-Range parsing accepts exactly well-formed ranges
packages stream/httprange
include std crange
