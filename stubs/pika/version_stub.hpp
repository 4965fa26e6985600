#pragma once
// Stand-in for pika (not available offline): just enough of its interface to type-check DLA-Future, with
// simple single-threaded semantics (continuations run inline).
#define PIKA_VERSION_FULL 0x001E00
