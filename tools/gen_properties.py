#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": hook,
        },
    })

SERVE = "optional: the batch-serving hook in main.rs (cfg ripcalc_verif) runs many command lines per process; every alarm is confirmed on the unhooked binary"
API = "the API-call hook (cfg ripcalc_verif_api) exposes the crate-private address and network types as text commands"

p("P01", "All notations of the same network mean the same network",
  "A network may be written with a CIDR prefix, a subnet mask, or a minus sign and a Cisco wildcard (or, for a prefix, a minus sign and the number of host bits), and its address with leading zeros or any legal IPv6 shortening; every spelling of the same address and mask gives the same result, byte for byte, in every mode. Host bits set in the address do not change the network that minimize, split, resize and enumerate work on. The subnet argument of resize accepts prefix, mask and minus-wildcard-mask spellings alike.",
  ["inputs"], "every IPv4/IPv6 address and mask, every legal spelling of it, every mode",
  "The tests build networks through the constructors and parse a handful of address literals; no test ever parses a network specification, so the notations are never compared.",
  ["src/cmds/mod.rs", "src/addr.rs", "src/cidr.rs"],
  [("network specification parsing by four regexes", "src/cmds/mod.rs parse_netspec"), ("subnet argument parsing", "src/cmds/mod.rs parse_subnet"), ("IPv6 text parsing", "src/addr.rs Ipv6Address::from_str")],
  ["stdout, stderr and exit status of the program"], SERVE)

p("P02", "Malformed or out-of-range arguments are refused, without results",
  "A specification that is not a well-formed network (an octet above 255, a group above ffff, a prefix above 32 or 128, too many or too few parts, more than one double colon, a lone leading or trailing colon, missing or stray characters, an address and mask of different families) or a list that mixes families where one family is required makes the program exit with status 1 and a message on standard error. Show, minimize, derange, resize and split then print nothing at all on standard output, whatever the other arguments are and wherever the bad one stands. Enumerate reports each bad network, still lists every good one, and exits with status 1.",
  ["inputs"], "every argument string outside the address/network grammar, at every argument position of every mode",
  "The tests reject a few literals at the address parser; they never check ranges such as values that wrap a machine word, prefixes out of range, family mixing, or that nothing is printed.",
  ["src/cmds/mod.rs", "src/addr.rs", "src/cmds/show_net.rs", "src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/enumerate.rs"],
  [("regex anchors and range checks", "src/cmds/mod.rs parse_netspec"), ("chunk validation", "src/addr.rs from_str"), ("parse everything before printing", "src/cmds/show_net.rs show_net"), ("family check", "src/cmds/mod.rs parse_same_family_netspecs")],
  ["stdout, stderr and exit status"], SERVE)

p("P03", "Every printed address is canonical text that reads back unchanged",
  "Every address the program prints denotes exactly the computed value when read by any standards-conforming parser, and when fed back to the program itself. IPv4 is four plain decimal octets; IPv6 is lower-case hexadecimal without leading zeros, with the leftmost longest run of two or more zero groups, and nothing but zero groups, replaced by a double colon. Addresses and masks whose zero groups lie at the very start or end are no exception.",
  ["inputs"], "every 32-bit and 128-bit address, in particular every pattern of zero and non-zero groups",
  "Nine IPv6 literals are formatted and nineteen parsed in the tests; there are 256 zero-group patterns, and none is both printed and re-read.",
  ["src/addr.rs"],
  [("longest zero run search and joining", "src/addr.rs Display for Ipv6Address"), ("shortening expansion", "src/addr.rs FromStr for Ipv6Address"), ("IPv4 text", "src/addr.rs Display for Ipv4Address")],
  ["stdout of enumerate, derange, minimize and show"], SERVE)

p("P04", "Show mode states the true facts of every CIDR network",
  "For every address and CIDR prefix of either family, show mode reports the given address, the netmask with its prefix length, the wildcard, the network base with its prefix, the first and last host, the broadcast address and the number of hosts exactly as defined by the address and prefix (hosts = addresses minus two). Networks with fewer than two host bits are reported as having no hosts, and a single-address network as having no broadcast. Prefix 0 and networks touching either end of the address space are no exception.",
  ["inputs"], "every address x prefix 0..32 and 0..128",
  "No test looks at first/last host, broadcast, host count or the show command at all.",
  ["src/net.rs", "src/cmds/show_net.rs", "src/cidr.rs", "src/addr.rs"],
  [("host and broadcast computation", "src/net.rs first_host_addr/last_host_addr/broadcast_addr"), ("host count", "src/net.rs address_count/host_count"), ("rows", "src/cmds/show_net.rs output_network")],
  ["stdout of show mode"], SERVE)

p("P05", "Show mode states the true facts of every lopsided network",
  "For every address and every subnet mask whose network and host bits are interspersed, the reported base has every host bit clear, the broadcast every host bit set, the first host is the base plus one in the host bits and the last host is the broadcast minus one in the host bits, while all network bits equal those of the given address. The number of hosts is two to the power of the number of host bits, minus two, and the wildcard is the complement of the mask. A prefix length is shown next to the mask if and only if the mask is contiguous.",
  ["inputs"], "every address x every 32-bit or 128-bit mask",
  "There are 2^32 and 2^128 masks; tests use two lopsided masks and never ask for hosts or broadcast.",
  ["src/net.rs", "src/bit_manip.rs", "src/cidr.rs", "src/cmds/show_net.rs"],
  [("unravel and weave", "src/bit_manip.rs"), ("contiguity recognition", "src/cidr.rs prefix_from_subnet_mask_bytes"), ("host range", "src/net.rs")],
  ["stdout of show mode"], SERVE)

p("P06", "Network displays render the right bits, aligned, in order, one row per line",
  "Wherever a network is displayed (show, split, resize), every row is one line holding its label, its value and the exact binary digits of the address in that row, grouped per octet or per sixteen bits, with values and binary digits starting in the same columns in every row. Show displays all given networks in the order given, separated by one blank line, and each network's block has the same rows as when it is shown alone. Displays printed by split and resize are, row for row, the network part of what show prints for that same network.",
  ["inputs", "configurations"], "every network of either family, every list of networks, output to pipe or file",
  "No test captures any output.",
  ["src/cmds/show_net.rs", "src/console.rs", "src/bit_manip.rs"],
  [("padding and printing", "src/console.rs write_in_color"), ("binary columns", "src/cmds/show_net.rs output_binary_*"), ("block separation", "src/cmds/show_net.rs show_net")],
  ["stdout of show, split and resize"], SERVE)

p("P07", "The IPv4 class label is right, and present only when the mask fixes it",
  "For every IPv4 network with at least one host, the class shown is A, B, C, D (multicast) or E (reserved) exactly when the leading address bits that distinguish this class (0, 10, 110, 1110, 1111) are all network bits of the mask, and no class is shown otherwise. IPv6 networks never have a class.",
  ["inputs"], "every IPv4 address x every mask, contiguous or not; every IPv6 network",
  "No test covers class detection.",
  ["src/cmds/show_net.rs"],
  [("class decision", "src/cmds/show_net.rs output_ipv4_class")],
  ["the Hosts/Net row"], SERVE)

p("P08", "Colour adds escapes only, and classifies every bit correctly",
  "With colour forced on, every mode prints the same text as without colour once the escape sequences are removed. In the rows that show an address or network base under its mask, each binary digit is coloured as network or host bit according to that bit of the mask. On the network row of an IPv4 network whose class is fixed by the mask, exactly the digits that decide the class carry a third colour, and none do otherwise.",
  ["inputs", "configurations"], "every network, with colours forced on or off",
  "No test runs with colour; the colour code path is not reachable from the tests.",
  ["src/console.rs", "src/cmds/show_net.rs"],
  [("styling", "src/console.rs write_in_color"), ("per-bit colours", "src/cmds/show_net.rs output_binary_ipv4_address / output_binary_ipv6_address")],
  ["stdout with CLICOLOR_FORCE=1"], SERVE)

p("P09", "Minimize neither adds nor loses a single address",
  "For every list of networks of one family, contiguous or lopsided, overlapping, nested, duplicated or disjoint, the union of the networks minimize prints is exactly the union of the networks it was given.",
  ["inputs"], "every multiset of networks of one family",
  "Four lists are tested; soundness must hold for every combination of nesting, adjacency and masks.",
  ["src/cmds/minimize.rs", "src/net.rs", "src/bit_manip.rs"],
  [("subset elimination", "src/cmds/minimize.rs minimize_subnets; src/net.rs is_superset_of"), ("pair merging", "src/cmds/minimize.rs minimize_subnets; src/net.rs next_subnet_base_addr")],
  ["stdout of minimize"], SERVE)

p("P10", "Minimize output is irreducible, sorted, and independent of input order",
  "For CIDR networks the printed list is the unique smallest list of CIDR networks covering the same addresses. For any networks, no printed network is contained in another printed one, no two printed networks with the same mask are adjacent halves of a larger network, and the list is sorted by base address (then mask) without duplicates. Permuting or repeating the arguments does not change the output, and feeding the output back returns it unchanged.",
  ["inputs"], "every multiset of networks of one family, every permutation of it",
  "Minimality, confluence and idempotence quantify over all lists; tests compare four lists with literals.",
  ["src/cmds/minimize.rs", "src/net.rs"],
  [("merge to fixpoint", "src/cmds/minimize.rs minimize_subnets"), ("final ordering", "src/cmds/minimize.rs minimize_subnets")],
  ["stdout of minimize"], SERVE, [("filtered_subnets", "hash set of surviving networks", "src/cmds/minimize.rs")])

p("P11", "Derange covers the given range exactly",
  "For every two addresses of one family, given in either order, the networks printed by derange are pairwise disjoint and together contain every address of the inclusive range and no other. This includes single addresses, ranges that start at the first or end at the last address, and the whole address space.",
  ["inputs"], "every pair of addresses of one family",
  "Tests try four ranges, none touching the ends of the address space.",
  ["src/cmds/derange.rs", "src/net.rs", "src/addr.rs"],
  [("greedy growth", "src/cmds/derange.rs range_to_subnets"), ("next base with carry", "src/net.rs next_subnet_base_addr; src/addr.rs add_internal")],
  ["stdout of derange"], SERVE)

p("P12", "Derange output is the shortest ordered CIDR list, whichever end comes first",
  "Derange prints aligned CIDR networks in ascending order, and no shorter list of CIDR networks covers the range. Swapping the two addresses does not change the output, and a range that is exactly one CIDR network yields just that network.",
  ["inputs"], "every pair of addresses of one family",
  "Minimality must hold for every pair of ends; four ranges are tested.",
  ["src/cmds/derange.rs"],
  [("largest aligned block first", "src/cmds/derange.rs range_to_subnets"), ("min/max of the ends", "src/cmds/derange.rs range_to_subnets")],
  ["stdout of derange"], SERVE)

p("P13", "Split gives each request its own, smallest sufficient slice of the network",
  "When a CIDR network is split and the requests fit, the slice printed for each host count, in the order requested, is an aligned CIDR network inside the given network with at least that many hosts, and the next smaller size would have too few. No two slices overlap.",
  ["inputs"], "every CIDR network x every list of host counts, in every order, with repeats",
  "Tests try a dozen small lists; sizes just at, below and above powers of two, order restoration and ends of the address space are not sampled.",
  ["src/cmds/split.rs", "src/net.rs"],
  [("largest first allocation", "src/cmds/split.rs split_subnet"), ("order restoration", "src/cmds/split.rs split_subnet"), ("host count", "src/net.rs host_count")],
  ["stdout of split"], SERVE)

p("P14", "Split accounts for every address: slices and unused networks tile the network",
  "When a CIDR network is split and the requests fit, the slices and the networks listed as unused are pairwise disjoint, all lie in the given network, and together contain every one of its addresses. When the slices use up the whole network, no unused network is listed.",
  ["inputs"], "every CIDR network x every list of host counts that fits, including exact fits and networks at the end of the address space",
  "The unused list is printed by code that no test calls.",
  ["src/cmds/split.rs", "src/cmds/derange.rs"],
  [("unused range", "src/cmds/split.rs output_split"), ("range to networks", "src/cmds/derange.rs range_to_subnets")],
  ["stdout of split"], SERVE)

p("P15", "Split says it does not fit exactly when it does not fit",
  "Splitting a CIDR network succeeds without complaint exactly when the requested slices, each rounded up to its smallest sufficient size, add up to no more than the network's size. Otherwise the output says that there are not enough addresses or that the network is too small, and lists no unused networks; slices of larger size than the network, or lists running past the end of the address space, never pass as a success.",
  ["inputs"], "every CIDR network x every list of host counts, around the exact-fit boundary",
  "Tests check the internal allocation, not the verdict; the exact-fit boundary and the end of the address space are untested.",
  ["src/cmds/split.rs", "src/net.rs"],
  [("fit verdict", "src/cmds/split.rs output_split"), ("end of space", "src/cmds/split.rs split_subnet; src/net.rs next_subnet_base_addr")],
  ["stdout and exit status of split"], SERVE)

p("P16", "Resize to a larger or equal size gives the one enclosing network",
  "Resizing a CIDR network to a shorter prefix prints, as the supernet, the unique network of that prefix length containing it; resizing to its own prefix prints the same network as same-sized. The original network is displayed first, unchanged.",
  ["inputs"], "every CIDR network x every target prefix not longer than its own",
  "Six literal resizes are tested at function level; the command and its report never.",
  ["src/cmds/resize.rs"],
  [("supernet and same size branches", "src/cmds/resize.rs resize_network"), ("report", "src/cmds/resize.rs resize_and_output")],
  ["stdout of resize"], SERVE)

p("P17", "Resize to a smaller size partitions the network completely, in order",
  "Resizing a CIDR network to a longer prefix prints every subnet of that prefix length inside it exactly once, numbered consecutively from 1 in ascending address order: their number is two to the power of the prefix difference, they do not overlap, and together they are exactly the original network. Networks ending at the last address are no exception.",
  ["inputs"], "every CIDR network x every longer target prefix (bounded number of subnets)",
  "Two four-way splits are tested at function level, none at the end of the address space.",
  ["src/cmds/resize.rs", "src/net.rs"],
  [("stepping through subnets", "src/cmds/resize.rs resize_network")],
  ["stdout of resize"], SERVE)

p("P18", "Resize between lopsided masks moves bits in order and keeps the counts",
  "For any two masks of one family, resizing treats the network bits in order followed by the host bits in order as one number, resizes that number's network as a CIDR network to the new mask's count of network bits, and places the result's bits, in the same order, on the new mask's network and host positions. The report says supernet, same-sized or numbered subnets according to the counts of host bits, and every printed network has exactly the new mask.",
  ["inputs"], "every network x every target mask, contiguous or lopsided, with a bounded number of subnets",
  "Six lopsided cases are tested; there are 2^32 and 2^128 masks.",
  ["src/cmds/resize.rs", "src/bit_manip.rs"],
  [("unravel, resize, weave", "src/cmds/resize.rs resize_network"), ("bit moves", "src/bit_manip.rs")],
  ["stdout of resize (mask recovered from HostMin/Broadcast rows)"], SERVE)

p("P19", "Enumerate lists every address of a CIDR network once, in order",
  "For every CIDR network, enumerate prints all its addresses from the base to the last, inclusive, one per line, in ascending order, each exactly once, and nothing else. Networks that cross carry boundaries inside the address or end at the last address are no exception.",
  ["inputs"], "every CIDR network (whole listing for up to 2^16 addresses)",
  "Two 16-address networks are tested.",
  ["src/cmds/enumerate.rs", "src/addr.rs"],
  [("iterator", "src/cmds/enumerate.rs NetworkIter"), ("increment with carry", "src/addr.rs add_offset")],
  ["stdout of enumerate"], SERVE)

p("P20", "Enumerate lists exactly the members of a lopsided network, in order",
  "For every network with an interspersed mask, enumerate prints exactly those addresses whose network bits equal the network's, each once, in ascending order: two to the power of the number of host bits lines.",
  ["inputs"], "every address x every lopsided mask (whole listing for up to 2^14 addresses)",
  "Two lopsided networks of 16 addresses are tested.",
  ["src/cmds/enumerate.rs", "src/bit_manip.rs"],
  [("unravel/weave iteration", "src/cmds/enumerate.rs NetworkIter; src/bit_manip.rs")],
  ["stdout of enumerate"], SERVE)

p("P21", "Enumerate streams: networks of any size start at once and use bounded memory",
  "Enumerating a network too large to finish, up to the whole IPv6 space, yields its addresses in order from the first one on as long as the reader keeps reading, within a fixed small amount of memory. Several networks given at once are listed one after the other in the order given, each as if it were given alone.",
  ["inputs", "histories"], "every network, every list of networks, every point at which the reader stops",
  "Tests take at most 18 steps of an iterator and never run the command.",
  ["src/cmds/enumerate.rs"],
  [("lazy iteration", "src/cmds/enumerate.rs NetworkIter::next"), ("per network loop", "src/cmds/enumerate.rs enumerate")],
  ["stdout of enumerate under an address-space limit"], SERVE)

p("P22", "No command line makes the program crash, hang or lie about its status",
  "Whatever bytes the arguments consist of, the program ends by itself with exit status 0 or 1, without panic, arithmetic overflow, abort or signal, in bounded time for bounded output. Status 1 always comes with a message on standard error or, for a split that cannot be done, on standard output; status 0 without output on standard error, except for help. Missing or surplus arguments print the usage text and give status 1, and long and short option names are interchangeable.",
  ["inputs"], "every argument vector, including empty, non-UTF-8 and very long arguments",
  "Tests never run the program; no argument vector is ever dispatched.",
  ["src/main.rs", "src/cmds/mod.rs", "src/cmds/derange.rs", "src/cmds/split.rs", "src/addr.rs", "src/net.rs"],
  [("dispatch and usage", "src/main.rs do_main"), ("unwrap/expect sites that must be unreachable", "src/cmds/*.rs, src/net.rs")],
  ["exit status, signal, stderr of an overflow-checked build"], SERVE)

p("P23", "A failed or truncated write is never reported as success",
  "If standard output cannot take all of the output, because the device is full, a size limit is reached at any byte, or the reader has gone away, the program ends with a non-zero status. What was written up to then is exactly a prefix of the full output. Where the output is merely taken piecemeal, or writes are interrupted, all of it still arrives. Messages that standard error cannot take do not turn a failure into a success either.",
  ["inputs", "fault_sequences"], "every command line with output x every byte offset at which writing to either stream fails",
  "Tests neither run the program nor inject write faults.",
  ["src/console.rs", "src/cmds/show_net.rs", "src/cmds/enumerate.rs", "src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/main.rs"],
  [("line-buffered printing that panics on error", "print!/println! throughout"), ("exit status", "src/main.rs main")],
  ["exit status and the bytes that reached a size-limited file, /dev/full or a closed pipe"])

p("P24", "The same command line always gives the same bytes",
  "Output and exit status depend on the arguments alone: repeated runs in fresh processes, whatever the locale, time zone, terminal type, working directory or other environment (colour settings aside), the name it is called by, the user, the process number, the host and the time, what is on standard input, and debug and release builds, give byte-identical standard output and the same status. Hash iteration order never shows.",
  ["inputs", "schedules", "configurations"], "every command line x every per-process hash seed x environment x build profile",
  "Each test runs once in one process and one profile; randomised hash seeds differ per process.",
  ["src/cmds/minimize.rs", "src/cmds/split.rs", "src/console.rs"],
  [("sorting after hash set iteration", "src/cmds/minimize.rs minimize_subnets"), ("sorting after hash map iteration", "src/cmds/split.rs split_subnet")],
  ["stdout and exit status of repeated runs"], None,
  [("hash collections", "HashSet/HashMap with random per-process seeds", "src/cmds/minimize.rs, src/cmds/split.rs")])

p("P25", "The modes agree with each other",
  "Deranging from a CIDR network's base to its last address gives back that network; minimizing all addresses that enumerate lists gives back the network; minimizing the subnets that resize prints gives back the original; minimizing split's slices plus unused networks gives back the network; and the first, last and number of enumerated addresses agree with what show reports. Deranging a range and minimizing any cover of the same range by CIDR networks give the same list.",
  ["inputs", "histories"], "every network and every chain of commands in which one mode's output becomes another's input",
  "Tests exercise each function in isolation and never feed one result into another.",
  ["src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/enumerate.rs", "src/cmds/show_net.rs"],
  [("shared network arithmetic", "src/net.rs"), ("text interface between modes", "src/cmds/mod.rs parse_netspec; Display impls")],
  ["stdout of chained runs"], SERVE)

p("P26", "Address arithmetic is exact, with carry, borrow and range check",
  "For both families, adding or subtracting two addresses, or an address and any signed 32-bit offset, gives the mathematically exact result when it lies in the address range and reports overflow otherwise; it never wraps and never aborts. Negation flips every bit, and the bitwise and counting operations work on every bit of the address.",
  ["inputs"], "every pair of addresses; every address x every 32-bit offset including the most negative",
  "No test touches addition, subtraction, negation, or-ing, xor-ing or bit counting; only and-ing is tested on three pairs.",
  ["src/addr.rs"],
  [("carry", "src/addr.rs Ipv6Address::add_internal"), ("borrow", "src/addr.rs Ipv6Address::sub_internal"), ("IPv4 via 64-bit", "src/addr.rs Ipv4Address::add_internal")],
  ["results of the address operations; last-host and enumerate outputs that use them"], API)

p("P27", "Moving bits to and from contiguous form is an order-preserving bijection",
  "For every mask, bringing an address into contiguous form places its network bits in order before its host bits in order, and the reverse operation restores the original address exactly; both are the identity for contiguous masks. Within one network the transformation preserves the order of addresses.",
  ["inputs"], "every address x every mask of either family",
  "The transformation is only reached through a few enumerate and resize literals.",
  ["src/bit_manip.rs"],
  [("unravel/weave", "src/bit_manip.rs unravel_address, weave_address"), ("bits to bytes and back", "src/bit_manip.rs bytes_to_bits, bits_to_bytes")],
  ["results of the transformation; enumerate and resize outputs that use it"], API)

p("P28", "Network relations mean set relations",
  "For every two networks of one family, contiguous or lopsided: an address is contained exactly when it agrees with the base on every network bit; superset and subset hold exactly when every address of the one is in the other; two networks intersect exactly when some address is in both. First host, last host, broadcast, last address and next base are consistent with that membership.",
  ["inputs"], "every pair of networks, every address",
  "No test calls any of these relations.",
  ["src/net.rs"],
  [("membership and subset by mask algebra", "src/net.rs contains, is_superset_of, is_subset_of"), ("intersection", "src/net.rs intersects"), ("next network", "src/net.rs next_subnet_base_addr")],
  ["results of the relations; minimize output that depends on them"], API)

p("P29", "Conversions between masks, prefixes, bytes, groups and text lose nothing",
  "Bytes, sixteen-bit groups, full text and short text of every address convert back to the same address, and wrong lengths are refused. A prefix converts to the mask with exactly that many leading ones, and a mask converts to a prefix exactly when its ones are contiguous from the top. Strict network construction succeeds exactly when the given address has no host bits set, and networks built from equivalent prefix and mask are equal.",
  ["inputs"], "every address, every prefix, every mask of either family; every wrong length",
  "Tests check some literals per conversion; recognition of non-contiguous masks rests on a 256-entry table of which few entries are ever used.",
  ["src/addr.rs", "src/cidr.rs", "src/net.rs", "src/bit_manip.rs"],
  [("prefix table", "src/cidr.rs SUBNET_MASK_BYTE_TO_PREFIX, CIDR_BYTE_TO_PREFIX"), ("byte and group conversions", "src/addr.rs to_bytes/from_bytes/to_chunks/from_chunks/to_full_string"), ("strict constructors", "src/net.rs new_with_*_strict")],
  ["results of the conversions; netmask rows in show"], API)

p("P30", "Colour appears exactly when forced or wanted on a colour terminal",
  "Output is coloured exactly when CLICOLOR_FORCE is set to something other than 0, or when standard output is a terminal, NO_COLOR is not set, TERM is set to something other than dumb, and CLICOLOR is not 0. What standard input and standard error are connected to, the size of the terminal and other variables make no difference. Coloured or not, the text is the same, and output that is not coloured contains no escape sequence at all.",
  ["inputs", "configurations"], "every command line x pipe, file or terminal as output x other streams x values of the colour variables",
  "Tests never run the program, let alone on a terminal.",
  ["src/console.rs"],
  [("colour decision", "src/console.rs write_in_color: console::colors_enabled")],
  ["bytes written to pipes, files and pseudo-terminals"], None)

p("P31", "The same thing has the same colour everywhere",
  "In colour, every displayed network uses one palette, in show, split and resize and for both families alike: labels, notes and the separators between binary digits are bright white; values bright blue; the digits of the mask bright red; network digits bright green; host digits, and all digits of wildcard, first and last host and broadcast, bright yellow; class digits and the class bright magenta. Titles and the lists printed by minimize, derange, enumerate and split are never coloured. The colour test shows the sixteen colour names, each padded to twenty characters and in the colour it names.",
  ["inputs"], "every command line of every mode with colour on, every printed character",
  "No test looks at colours.",
  ["src/cmds/show_net.rs", "src/console.rs", "src/main.rs"],
  [("palette", "src/cmds/show_net.rs *_COLOR constants"), ("colour per digit", "src/cmds/show_net.rs output_binary_ipv4_address, output_binary_ipv6_address"), ("colour names to escapes", "src/console.rs write_in_color"), ("colour test", "src/main.rs color_test")],
  ["coloured standard output"], SERVE)

p("P32", "A pure calculation: nothing is touched but the output streams",
  "Whatever the arguments, the program writes nothing but to standard output and standard error: it creates, changes, renames or removes no file, opens no user file (also not one named like an argument or a configuration file), reads nothing from standard input, opens no socket, resolves no name and starts or signals no process.",
  ["inputs", "configurations"], "every command line, with any files around and anything on standard input",
  "Unit tests call functions; what the process does to its surroundings is not observed by any.",
  ["src/main.rs", "src/cmds/mod.rs"],
  [("arguments are the only input", "src/main.rs do_main"), ("output through print and eprint only", "src/console.rs, src/cmds")],
  ["system calls of the process; directory contents; position of standard input"], None)

p("P33", "Error messages blame the right argument and are true",
  "An error message is about the first argument that is wrong (enumerate: one message for each wrong one, in order). Whatever it quotes is that argument or its wrong part, verbatim; it says correctly whether the address, the mask, the prefix, the host count, the first or the second address is at fault; and the position (from 0) and value of the wrong octet or group, the number of parts found and expected, the prefix, the families and the limits it mentions are the true ones.",
  ["inputs"], "every kind of fault at every place in every mode",
  "Tests compare a few error values of the address parsers; they never look at a message or at which argument is blamed.",
  ["src/addr.rs", "src/cmds/mod.rs", "src/cmds/derange.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/enumerate.rs"],
  [("address errors with index, value, limits", "src/addr.rs IpAddressParseError"), ("specification errors", "src/cmds/mod.rs ParseNetspecError"), ("per-argument messages", "src/cmds/derange.rs, resize.rs, split.rs, enumerate.rs")],
  ["standard error"], SERVE)

p("P34", "Leaving out a cargo feature removes only what that feature provides",
  "The program can be built with and without each of its features. Without console, everything is the same except that nothing is ever coloured. Without num-bigint, everything is the same except that the rows on the number of hosts are not displayed, and that split is not offered: it is not mentioned in the usage text and its option is refused like any other word that is no network.",
  ["inputs", "configurations"], "every command line x every combination of features",
  "The tests run in one configuration; at the pinned commit no other one even compiled.",
  ["src/main.rs", "src/console.rs", "src/cmds/show_net.rs", "src/cmds/mod.rs", "src/net.rs"],
  [("conditional compilation", "cfg(feature) in src/main.rs, src/console.rs, src/cmds/show_net.rs, src/cmds/mod.rs, src/net.rs")],
  ["stdout, stderr and status of the builds"], None)

p("P35", "Cost follows the arguments and the output, never the size of the networks",
  "What a command costs in time and memory depends on how much it is given and how much of its output is taken, not on how many addresses or subnets the networks have. Displays, minimize, derange, split and supernets of the largest IPv6 networks finish as promptly as those of the smallest. Resizing a network into any number of subnets, up to 2^128 of them, prints them as it goes, in constant memory, at a time proportional to what is read.",
  ["inputs"], "every network and mask up to the whole IPv6 address space x every mode x every amount of output taken",
  "Tests use networks of at most a few thousand addresses, and never look at time or memory.",
  ["src/net.rs", "src/bit_manip.rs", "src/cmds/resize.rs", "src/cmds/split.rs", "src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/enumerate.rs", "src/cmds/show_net.rs"],
  [("subnets passed on one by one", "src/cmds/resize.rs resize_network_each"), ("arithmetic on bases and masks instead of loops over addresses", "src/net.rs")],
  ["CPU time, address-space limit and stdout as far as it is read"], None)

p("P36", "The usage text and the README tell the truth",
  "The usage text names every mode with its short and its long option and every notation of subnets, and every command line built after one of its forms, with any values for its words and repetitions where it shows dots, is accepted. Options that it does not name (apart from --help and --color-test) do not exist: they are refused like any other word that is no network. The same usage text is printed for --help and wherever words are missing, or surplus for derange and resize. Every example command line in README.md prints what the README shows (but for white space at the ends of lines).",
  ["inputs"], "every command line of every form in the usage text x every incomplete one x every option name",
  "Tests never look at the usage text or at the dispatch of options.",
  ["README.md", "src/main.rs", "src/cmds/derange.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/minimize.rs", "src/cmds/enumerate.rs", "src/cmds/show_net.rs", "src/cmds/mod.rs"],
  [("usage text", "src/main.rs usage"), ("dispatch", "src/main.rs do_main"), ("argument counts", "src/cmds/*.rs")],
  ["stderr of --help; stdout, stderr and status of command lines derived from it"], SERVE)

p("P37", "No execution has undefined behaviour",
  "Whatever the arguments, no execution of the program reads or writes outside live memory, uses memory after it was released or before it was initialized, makes an invalid value (a text that is not UTF-8, a dangling or misaligned reference, an impossible enumeration value), breaks the aliasing rules or races: the ordinary build, a build instrumented for memory errors, and an interpreter that checks every operation report nothing and print the same.",
  ["inputs"], "every command line, in every kind of build",
  "Tests run in an ordinary build, where a stray access usually shows nothing.",
  ["src/main.rs", "src/addr.rs", "src/net.rs", "src/cidr.rs", "src/bit_manip.rs", "src/console.rs", "src/cmds/mod.rs", "src/cmds/show_net.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/enumerate.rs"],
  [("parsing", "src/addr.rs FromStr, src/cmds/mod.rs"), ("bits and bytes", "src/bit_manip.rs, src/cidr.rs"), ("output", "src/console.rs, src/cmds/show_net.rs")],
  ["reports of AddressSanitizer, Miri and Valgrind; stdout, stderr and status of all builds"], SERVE)

p("P38", "Packages hold just the program and its papers, and tell the truth about them",
  "In whatever code directory, history, time zone, locale, umask and account contrib/debianize.py is run on a built program, it prints one line, the name ripcalc_COUNT_ARCH.deb (COUNT: commits reachable from HEAD; ARCH: Debian's name of the program's architecture by its ELF header), leaves a package of that name in the code directory and changes nothing else there nor leaves temporary files. The package is one dpkg accepts and installs: debian-binary 2.0, a control archive of just control and md5sums, a data archive of just usr/bin/ripcalc (the program with its symbols stripped; the original stays as it was), changelog.gz and copyright under usr/share/doc/ripcalc, all owned by root, readable by everyone, the program runnable by everyone, nothing writable by others. md5sums names every installed file with its right checksum; control states the right Version, Architecture, Installed-Size (KiB) and Depends, the latter demanding of libc6 and libgcc1 the numerically highest version the program needs and nothing else; the changelog has that version, the package's maintainer, the time of the run in Debian's (English) form, and no time stamp in its gzip header. The Arch recipe's version is rCOUNT.HASH and it installs the release program (mode 755) and COPYING.md as the licence (mode 644).",
  ["inputs", "configurations"], "every code directory, program and surroundings",
  "There are no tests of the packaging scripts; what they produce depends on the program's needs and the builder's surroundings.",
  ["contrib/debianize.py", "contrib/PKGBUILD.archlinux"],
  [("the packager", "contrib/debianize.py main"), ("architecture and needs", "contrib/debianize.py get_elf_machine, get_elf_versions, libver_to_deps"), ("data and papers", "contrib/debianize.py collect_data, fake_changelog, make_copyright"), ("control", "contrib/debianize.py collect_control"), ("Arch", "contrib/PKGBUILD.archlinux")],
  ["stdout, status, and every byte, mode and owner in the resulting package; dpkg's own verdict; changes in the code and temporary directories"])

p("P39", "A package that could not be made is never announced",
  "If any step of contrib/debianize.py fails (a tool it calls - git, date, strip, tar, readelf, ar - is missing, cannot be started, reports failure or is killed at any of its calls; the program is missing, not an ELF file, cut off, or of an architecture, word size or byte order without a Debian name; it needs a versioned library without a known package; there is no history to count; a file cannot grow or the code directory cannot be written to; the name cannot be printed), it ends with a non-zero status and says so on standard error; but for a failing standard output it then prints no name, leaves the code directory exactly as it was and leaves no temporary files. If a signal ends it, a name was printed only if the complete package of that name is in place.",
  ["fault_sequences", "crash_points", "inputs"], "every failing step, every unusable program, every moment of interruption",
  "There are no tests of the packaging scripts; failures of the tools do not happen in ordinary runs.",
  ["contrib/debianize.py"],
  [("calling tools", "contrib/debianize.py run_cmd"), ("refusing programs", "contrib/debianize.py get_elf_machine, libver_to_deps"), ("order of copying and printing", "contrib/debianize.py main")],
  ["stdout, stderr, status; snapshots of the code and temporary directories; the package, if one is announced"])

p("P40", "The same results on every platform",
  "The program builds for 32-bit and for big-endian Linux platforms as it does here, and for every command line it prints there what it prints on a 64-bit little-endian platform, with the same status (messages about numbers of ten or more digits may be worded differently): counts, subtractions, slices, prefix lengths, addresses beyond 2^32 and sums of them do not depend on the size of a machine word, and bytes, bits and chunks of addresses not on the order of bytes in memory.",
  ["inputs", "configurations"], "every command line, on every such platform",
  "Tests run on the machine they are built on.",
  ["src/addr.rs", "src/net.rs", "src/cidr.rs", "src/bit_manip.rs", "src/cmds/mod.rs", "src/cmds/show_net.rs", "src/cmds/split.rs", "src/cmds/resize.rs", "src/cmds/minimize.rs", "src/cmds/derange.rs", "src/cmds/enumerate.rs"],
  [("bytes, bits and chunks", "src/addr.rs, src/bit_manip.rs"), ("prefix lengths and counts", "src/cidr.rs, src/net.rs"), ("numbers given and printed", "src/cmds")],
  ["stdout, stderr and status of interpreted builds for i686, s390x and powerpc and of the native one; the API's answers there against exact integers"],
  "optional: the batch-serving hook in main.rs and the API hook (cfg ripcalc_verif); every alarm is confirmed on the unhooked program")

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
