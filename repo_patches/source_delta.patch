From b7c88b1479a09ca7672e3138fcbfff19ca200c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 01/27] fix: keep uncolored output on one line per row

write_in_color ended every piece with a newline when colors are off, so that
piped output had every column, even every binary digit, on its own line.
---
 src/console.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
-- 
2.43.0


From b15f348bf35d14a844f0918b3a071e6bd4f97736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 02/27] fix: terminate the "no hosts/net" row with a newline

---
 src/cmds/show_net.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..b6d119c 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -117,10 +117,10 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             let top_bits = bytes_to_binary(&net.base_addr().to_bytes()[0..1]);
             let top_mask_bits = bytes_to_binary(&net.subnet_mask().to_bytes()[0..1]);
             output_class(&top_bits, &top_mask_bits);
-            println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
         }
+        println!();
     }
 }
 
-- 
2.43.0


From 6eb6a4b8c04f298cb14a43a3f731a3453d1161a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 03/27] fix: highlight class bits of short class A and B
 networks

The checks for class B and C looked at a single bit instead of all leading
ones, so e.g. 64.0.0.0/2 (class A) was not highlighted.
---
 src/cmds/show_net.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index b6d119c..0dfc9bf 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -176,11 +176,11 @@ fn output_binary_ipv4_address(
                 } else if bitvec[0] == '1' && mask_bitvec[1] == '0' {
                     // first bit, 1, is part of the network, but second isn't
                     color_class = false;
-                } else if bitvec[1] == '1' && mask_bitvec[2] == '0' {
+                } else if bits.starts_with("11") && mask_bitvec[2] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
-                } else if bitvec[2] == '1' && mask_bitvec[3] == '0' {
-                    // first two bits, both 1, are part of the network, but third isn't
+                } else if bits.starts_with("111") && mask_bitvec[3] == '0' {
+                    // first three bits, all 1, are part of the network, but fourth isn't
                     color_class = false;
                 }
             }
-- 
2.43.0


From 6f2d73e21efee7fdce60d729f45c50fef4cbdb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 04/27] fix: derange the whole address space

Growing the subnet beyond prefix 0 underflowed (panic in debug builds, endless
loop in release builds).
---
 src/cmds/derange.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..df55635 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -65,6 +65,12 @@ pub fn range_to_subnets<A: IpAddress>(
     // start with the full mask
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
+        if current_subnet.cidr_prefix() == Some(0) {
+            // the whole address space; there is nothing larger and nothing left
+            ret.push(current_subnet);
+            break;
+        }
+
         // try enlarging the subnet
         let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
         if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
-- 
2.43.0


From 0e3378f5971575d4b61c008af2d0c02f6df446f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 05/27] fix: derange ranges that end at the last address

There is no next base address at the end of the address space; do not unwrap it.
---
 src/cmds/derange.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index df55635..2d0379b 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -76,7 +76,10 @@ pub fn range_to_subnets<A: IpAddress>(
         if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(addr) => addr,
+                None => break, // end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
         } else {
             // anchor the growth and continue
-- 
2.43.0


From 3711b4643e9f7895e6fb9eb1660a10c738bbe6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 06/27] fix: let split hand out the whole address space

A slice of prefix 0 was refused even if it houses enough hosts.
---
 src/cmds/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..394749a 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -110,7 +110,7 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
+        if current_net.host_count() < host_count {
             // this won't fit
             return None;
         }
-- 
2.43.0


From 9f3eb486db60f57969397fb145639b5aecb5908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 07/27] fix: let split's last slice end at the last address

The address after the last slice is not needed; its absence made e.g.
"--split 255.255.255.0/24 254" fail.
---
 src/cmds/split.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 394749a..3430647 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -119,6 +119,7 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
         index_to_subnet.insert(i, current_net);
         let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
             Some(nsba) => nsba,
+            None if index_to_subnet.len() == host_counts.len() => break, // that was the last one
             None => return None,
         };
         current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
-- 
2.43.0


From cfad1ca3c9d5df9c445c602799f6bc510e92c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 08/27] fix: split notices slices larger than the network

A slice larger than the network can start before it and end with it, so looking
at the last used address is not enough (e.g. --split 192.168.3.0/24 300).
---
 src/cmds/split.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 3430647..6a680e3 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -71,7 +71,7 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
+    if !split_subnets.iter().all(|sn| subnet.is_superset_of(sn)) {
         println!("Network is too small");
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
         println!("Unused networks:");
-- 
2.43.0


From fa24ba11bc624acb2b6fac08025130febfe0ad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 09/27] fix: split lists no unused networks if there are none

With the network used up, the ends of the unused range were the wrong way around
and split listed the last used address and the one after the network as unused.
---
 src/cmds/split.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 6a680e3..2f1f371 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -76,10 +76,12 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
         println!("Unused networks:");
         let last_address = subnet.last_addr_of_subnet();
-        let unused_subnets = range_to_subnets(next_unused_address, last_address);
+        if next_unused_address <= last_address {
+            let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
-        for unused_subnet in unused_subnets {
-            println!("{}", unused_subnet);
+            for unused_subnet in unused_subnets {
+                println!("{}", unused_subnet);
+            }
         }
     }
 
-- 
2.43.0


From 8ab1e808cbb6e8dbea20e4b9907ef10197a137eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 10/27] fix: parse IPv6 addresses that shorten only their first
 or last chunk

"1:2:3:4:5:6:7::" and "::1:2:3:4:5:6:7" were refused although they are valid
and are what ripcalc itself outputs.
---
 src/addr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..927a283 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -395,15 +395,19 @@ impl FromStr for Ipv6Address {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         let mut addr_str = String::from(s);
+        let mut max_chunks = 8;
         if addr_str.starts_with(':') {
             addr_str.insert(0, '0');
+            max_chunks = 9;
         }
         if addr_str.ends_with(':') {
             addr_str.push('0');
+            max_chunks = 9;
         }
 
+        // "::1:2:3:4:5:6:7" and "1:2:3:4:5:6:7::" have an additional chunk now
         let chunks: Vec<&str> = addr_str.split(":").collect();
-        if chunks.len() > 8 {
+        if chunks.len() > max_chunks {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
 
-- 
2.43.0


From 0f518f45bf651af44aae106fc2078fef7a471cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 11/27] fix: refuse IPv6 addresses with a lone colon at either
 end

":1:2:3:4:5:6:7" and "1::2:" were taken to have a zero chunk there.
---
 src/addr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index 927a283..2f3ec33 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -420,6 +420,16 @@ impl FromStr for Ipv6Address {
             return Err(IpAddressParseError::TooManyShorteningElements(shortening_count, 1));
         }
 
+        if chunks.len() == 8 || shortening_count > 0 {
+            // ":1:2:3:4:5:6:7" and "1:2:3:4:5:6:7:" are invalid too
+            if s.starts_with(':') && !s.starts_with("::") {
+                return Err(IpAddressParseError::EmptyChunk(0));
+            }
+            if s.ends_with(':') && !s.ends_with("::") {
+                return Err(IpAddressParseError::EmptyChunk(chunks.len() - 1));
+            }
+        }
+
         let mut actual_chunks = Vec::new();
         if shortening_count == 0 {
             // full address "123:45:678:9:ab:cd:ef:21"
-- 
2.43.0


From 122737a6fa6c64a88a7a3ddfc70245862534fb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 12/27] fix: borrow from the top half when subtracting IPv6
 addresses

The borrow was only taken when the result is negative anyway, so that
1:: - 1 gave 1::ffff:ffff:ffff:ffff.
---
 src/addr.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index 2f3ec33..fb53402 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -275,13 +275,7 @@ impl Ipv6Address {
 
     fn sub_internal(addrtop64: u64, addrbot64: u64, offtop64: u64, offbot64: u64) -> Option<Ipv6Address> {
         let bot_diff = addrbot64.wrapping_sub(offbot64);
-        let is_borrow =
-            addrtop64 < offtop64
-            || (
-                addrtop64 == offtop64
-                && addrbot64 < offbot64
-            )
-        ;
+        let is_borrow = addrbot64 < offbot64;
 
         let mut top_diff = addrtop64.checked_sub(offtop64)?;
         if is_borrow {
-- 
2.43.0


From c97444aef2998d2fff91fd15f9fa73ad5fbd7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 13/27] fix: handle the most negative offset in IPv6 address
 arithmetic

Negating i32::MIN overflows.
---
 src/addr.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/addr.rs b/src/addr.rs
index fb53402..6f434ce 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -356,7 +356,10 @@ impl IpAddress for Ipv6Address {
 
     fn add_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::subtract_offset(&self, -offset)
+            Ipv6Address::sub_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::add_internal(
                 self.top_half, self.bottom_half,
@@ -374,7 +377,10 @@ impl IpAddress for Ipv6Address {
 
     fn subtract_offset(&self, offset: i32) -> Option<Ipv6Address> {
         if offset < 0 {
-            Ipv6Address::add_offset(&self, -offset)
+            Ipv6Address::add_internal(
+                self.top_half, self.bottom_half,
+                0, offset.unsigned_abs().into(),
+            )
         } else {
             Ipv6Address::sub_internal(
                 self.top_half, self.bottom_half,
-- 
2.43.0


From d2a5dcd0004eb7dac17e59744dcc6e933aa7be68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 14/27] fix: to_full_string returned an empty string

---
 src/addr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 6f434ce..98c6101 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -220,7 +220,7 @@ impl Ipv6Address {
     pub fn to_full_string(&self) -> String {
         let chunks = self.to_chunks();
         let mut chunk_strings = Vec::with_capacity(chunks.len());
-        for i in 0..chunk_strings.len() {
+        for i in 0..chunks.len() {
             chunk_strings.push(format!("{:04x}", chunks[i]));
         }
         chunk_strings.join(":")
-- 
2.43.0


From 0dc0d6a8a463b17341cc24ecac6650857a5886b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 15/27] fix: intersection of networks with mixed subnet masks

Comparing first and last addresses is only correct for CIDR networks.
---
 src/net.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index c8141a4..1c8d457 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -233,13 +233,9 @@ impl<A: IpAddress> IpNetwork<A> {
     /// Returns whether this network and another network intersect, i.e. there is at least one
     /// address that is contained in both networks.
     pub fn intersects(&self, other: &IpNetwork<A>) -> bool {
-        let self_first = self.base_addr;
-        let self_last = self.last_addr_of_subnet();
-        let other_first = other.base_addr;
-        let other_last = other.last_addr_of_subnet();
-
-        // thisFirst <= otherLast && otherFirst <= thisLast
-        self_first <= other_last && other_first <= self_last
+        // the base addresses must agree in all bits that are network bits in both networks
+        // (every other bit can be chosen to suit the network where it is a network bit)
+        self.base_addr & other.subnet_mask == other.base_addr & self.subnet_mask
     }
 }
 impl<A: IpAddress> fmt::Display for IpNetwork<A> {
-- 
2.43.0


From 83271e005a501927cc42a3be558491dc2ba25622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 16/27] fix: do not panic on arguments that are not valid
 Unicode

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 21da9bf..96c5208 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,7 +45,9 @@ fn usage() {
 }
 
 fn do_main() -> i32 {
-    let args: Vec<String> = std::env::args().collect();
+    let args: Vec<String> = std::env::args_os()
+        .map(|arg| arg.to_string_lossy().into_owned())
+        .collect();
 
     if args.len() < 2 {
         usage();
-- 
2.43.0


From 6a7c7a9a2fd4299228fc1058c917842bfb464bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 17/27] fix: terminate the output of --color-test with a
 newline

Besides leaving the prompt on the same line, the unterminated output was only
written at exit, where errors (e.g. a full device) are ignored.
---
 src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main.rs b/src/main.rs
index 96c5208..d3f6193 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -25,6 +25,7 @@ fn color_test() {
     crate::console::write_in_color("Magenta", Some(Color::Magenta), 20);
     crate::console::write_in_color("Yellow", Some(Color::Yellow), 20);
     crate::console::write_in_color("White", Some(Color::White), 20);
+    println!();
 }
 
 fn usage() {
-- 
2.43.0


From 0d9f9430cef572ad840da8f190507cb59d6b570a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 18/27] fix: minimize removes networks contained in merged
 networks

With mixed subnet masks, a network can be contained in a merged network without
being contained in one of its halves, e.g. 10.0.0.0/255.255.255.253 in
10.0.0.0/31 + 10.0.0.2/31.
---
 src/cmds/minimize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..18a813d 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -79,6 +79,11 @@ pub fn minimize_subnets<A: IpAddress>(
             .collect();
         subnets.sort_unstable_by_key(|net| (net.base_addr(), net.subnet_mask()));
 
+        // a merged network can contain further networks if there are mixed subnet masks
+        let all_subnets = subnets.clone();
+        subnets.retain(|net| !all_subnets.iter().any(|other| other != net && other.is_superset_of(net)));
+        filtered_subnets = subnets.iter().copied().collect();
+
         for i in 0..subnets.len() {
             for j in (i+1)..subnets.len() {
                 if subnets[i].subnet_mask() != subnets[j].subnet_mask() {
-- 
2.43.0


From 76fdb5a099a1bf154eb42aeba6ef15ba0833b3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 19/27] fix: resize accepts the documented -WILDCARD notation

---
 src/cmds/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 88c49dd..61749c7 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -252,8 +252,16 @@ pub fn parse_same_family_netspecs<S: AsRef<str>>(spec_strs: &[S]) -> Result<Netw
     }
 }
 
-/// Attempts to parse a subnet specification (mask or CIDR prefix).
+/// Attempts to parse a subnet specification (mask, CIDR prefix or Cisco wildcard).
 pub fn parse_subnet(spec: &str) -> Result<ParsedSubnet, ParseNetspecError> {
+    if let Some(wildcard) = spec.strip_prefix('-') {
+        return match parse_addr(wildcard) {
+            Ok(ParsedIpAddress::Ipv4(w)) => Ok(ParsedSubnet::Ipv4Mask(w.bitwise_negate())),
+            Ok(ParsedIpAddress::Ipv6(w)) => Ok(ParsedSubnet::Ipv6Mask(w.bitwise_negate())),
+            Err(e) => Err(ParseNetspecError::Mask(e)),
+        };
+    }
+
     if spec.contains(':') {
         let ipv6_addr: Ipv6Address = match spec.parse() {
             Ok(ia) => ia,
-- 
2.43.0


From fe1de2e0abf5f27f758ec41060f04adc6b6e5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 20/27] Verification hooks: serve command lines, call
 operations (cfg ripcalc_verif, ripcalc_verif_api)

---
 src/main.rs       |  11 ++++
 src/verif_api.rs  | 161 ++++++++++++++++++++++++++++++++++++++++++++++
 src/verif_hook.rs |  65 +++++++++++++++++++
 3 files changed, 237 insertions(+)
 create mode 100644 src/verif_api.rs
 create mode 100644 src/verif_hook.rs

diff --git a/src/main.rs b/src/main.rs
index d3f6193..fe5af3e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,9 +1,15 @@
+#![allow(unexpected_cfgs)] // ripcalc_verif and ripcalc_verif_api guard verification hooks
+
 mod addr;
 mod bit_manip;
 mod cidr;
 mod cmds;
 mod console;
 mod net;
+#[cfg(ripcalc_verif_api)]
+mod verif_api;
+#[cfg(ripcalc_verif)]
+mod verif_hook;
 
 use crate::console::Color;
 
@@ -49,6 +55,8 @@ fn do_main() -> i32 {
     let args: Vec<String> = std::env::args_os()
         .map(|arg| arg.to_string_lossy().into_owned())
         .collect();
+    #[cfg(ripcalc_verif)]
+    let args = crate::verif_hook::args(args);
 
     if args.len() < 2 {
         usage();
@@ -77,5 +85,8 @@ fn do_main() -> i32 {
 }
 
 fn main() {
+    #[cfg(ripcalc_verif)]
+    crate::verif_hook::serve(do_main);
+
     std::process::exit(do_main());
 }
diff --git a/src/verif_api.rs b/src/verif_api.rs
new file mode 100644
index 0000000..6847bee
--- /dev/null
+++ b/src/verif_api.rs
@@ -0,0 +1,161 @@
+//! Verification hook, compiled only with `--cfg ripcalc_verif --cfg ripcalc_verif_api`: calls
+//! operations of the address and network types by name.
+//!
+//! A request whose second argument is `@api` is a list of calls, each consisting of an operation
+//! name, an IP version and a fixed number of operands. Addresses are exchanged as hexadecimal
+//! numbers that have been converted by this module only through `new` and the bitwise operators, so
+//! that they do not depend on the conversions under test. Each call prints one line.
+
+use std::panic::{AssertUnwindSafe, catch_unwind};
+
+use crate::addr::{IpAddress, Ipv4Address, Ipv6Address};
+use crate::bit_manip::{bits_to_bytes, bytes_to_binary, bytes_to_bits, unravel_address, weave_address};
+use crate::cidr::{prefix_from_subnet_mask_bytes, subnet_mask_bytes_from_prefix};
+use crate::net::IpNetwork;
+
+
+/// An address that can be exchanged as a number.
+trait Raw: IpAddress + std::str::FromStr {
+    fn from_raw(raw: u128) -> Self;
+
+    /// Obtains the number by comparing each bit with a probe.
+    fn raw(&self) -> u128 {
+        let zero = Self::from_raw(0);
+        let mut ret = 0;
+        for i in 0..(self.byte_count() * 8) {
+            if *self & Self::from_raw(1 << i) != zero {
+                ret |= 1 << i;
+            }
+        }
+        ret
+    }
+}
+impl Raw for Ipv4Address {
+    fn from_raw(raw: u128) -> Self { Ipv4Address::new(raw as u32) }
+}
+impl Raw for Ipv6Address {
+    fn from_raw(raw: u128) -> Self { Ipv6Address::new((raw >> 64) as u64, raw as u64) }
+}
+
+fn hex(bytes: &[u8]) -> String {
+    bytes.iter().map(|b| format!("{:02x}", b)).collect()
+}
+
+fn unhex(s: &str) -> Vec<u8> {
+    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2*i..2*i+2], 16).unwrap()).collect()
+}
+
+fn opt<A: Raw>(addr: Option<A>) -> String {
+    addr.map(|a| format!("{:x}", a.raw())).unwrap_or_else(|| "none".to_owned())
+}
+
+fn net<A: Raw>(addr: &str, mask: &str) -> IpNetwork<A> {
+    IpNetwork::new_with_mask(num(addr), num(mask))
+}
+
+fn num<A: Raw>(s: &str) -> A {
+    A::from_raw(u128::from_str_radix(s, 16).unwrap())
+}
+
+fn net_str<A: Raw>(net: &IpNetwork<A>) -> String {
+    let prefix = net.cidr_prefix().map(|p| p.to_string()).unwrap_or_else(|| "none".to_owned());
+    format!("{:x} {:x} {}", net.base_addr().raw(), net.subnet_mask().raw(), prefix)
+}
+
+fn operand_count(op: &str) -> usize {
+    match op {
+        "add" | "sub" | "addoff" | "suboff" | "and" | "or" | "xor" | "cmp" | "unravel" | "weave"
+            | "newmask" | "newprefix" | "newmaskstrict" | "newprefixstrict" | "netinfo" => 2,
+        "contains" => 3,
+        "relate" => 4,
+        _ => 1,
+    }
+}
+
+fn generic<A: Raw>(op: &str, o: &[String]) -> String {
+    let a = |i: usize| -> A { num(&o[i]) };
+    match op {
+        "add" => opt(a(0).add_addr(&a(1))),
+        "sub" => opt(a(0).subtract_addr(&a(1))),
+        "addoff" => opt(a(0).add_offset(o[1].parse().unwrap())),
+        "suboff" => opt(a(0).subtract_offset(o[1].parse().unwrap())),
+        "and" => opt(Some(a(0) & a(1))),
+        "or" => opt(Some(a(0) | a(1))),
+        "xor" => opt(Some(a(0) ^ a(1))),
+        "not" => opt(Some(a(0).bitwise_negate())),
+        "cmp" => format!("{:?} {}", a(0).cmp(&a(1)), a(0) == a(1)),
+        "count" => format!("{} {} {}", a(0).count_ones(), a(0).count_zeros(), a(0).byte_count()),
+        "unravel" => opt(Some(unravel_address(a(0), a(1)))),
+        "weave" => opt(Some(weave_address(a(0), a(1)))),
+        "bytes" => hex(&a(0).to_bytes()),
+        "frombytes" => opt(A::from_bytes(&unhex(&o[0]))),
+        "text" => a(0).to_string(),
+        "parse" => opt(o[0].parse::<A>().ok()),
+        "newmask" => net_str(&net::<A>(&o[0], &o[1])),
+        "newprefix" => net_str(&IpNetwork::new_with_prefix(a(0), o[1].parse().unwrap())),
+        "newmaskstrict" => IpNetwork::new_with_mask_strict(a(0), a(1))
+            .map(|n| net_str(&n)).unwrap_or_else(|| "none".to_owned()),
+        "newprefixstrict" => IpNetwork::new_with_prefix_strict(a(0), o[1].parse().unwrap())
+            .map(|n| net_str(&n)).unwrap_or_else(|| "none".to_owned()),
+        "netinfo" => {
+            let n = net::<A>(&o[0], &o[1]);
+            format!(
+                "{} {} {} {} {:x} {:x} {} {}",
+                opt(n.first_host_addr()), opt(n.last_host_addr()), opt(n.broadcast_addr()),
+                opt(n.next_subnet_base_addr()), n.last_addr_of_subnet().raw(),
+                n.cisco_wildcard().raw(), n.address_count(), n.host_count(),
+            )
+        },
+        "contains" => net::<A>(&o[0], &o[1]).contains(&a(2)).to_string(),
+        "relate" => {
+            let x = net::<A>(&o[0], &o[1]);
+            let y = net::<A>(&o[2], &o[3]);
+            format!("{} {} {} {}", x.is_superset_of(&y), x.is_subset_of(&y), x.intersects(&y), x == y)
+        },
+        _ => "unknown".to_owned(),
+    }
+}
+
+fn other(op: &str, version: &str, o: &[String]) -> String {
+    let byte_count = if version == "4" { 4 } else { 16 };
+    match op {
+        "bits" => bytes_to_bits(&unhex(&o[0])).iter().map(|b| if *b { '1' } else { '0' }).collect(),
+        "binary" => bytes_to_binary(&unhex(&o[0])),
+        "frombits" => hex(&bits_to_bytes(&o[0].chars().map(|c| c == '1').collect::<Vec<bool>>())),
+        "maskprefix" => prefix_from_subnet_mask_bytes(&unhex(&o[0]))
+            .map(|p| p.to_string()).unwrap_or_else(|| "none".to_owned()),
+        "prefixmask" => hex(&subnet_mask_bytes_from_prefix(o[0].parse().unwrap(), byte_count)),
+        "fulltext" => num::<Ipv6Address>(&o[0]).to_full_string(),
+        "chunks" => num::<Ipv6Address>(&o[0]).to_chunks().iter()
+            .map(|c| format!("{:04x}", c)).collect::<Vec<String>>().join(","),
+        "fromchunks" => {
+            let chunks: Vec<u16> = o[0].split(',').filter(|c| !c.is_empty())
+                .map(|c| u16::from_str_radix(c, 16).unwrap()).collect();
+            opt(Ipv6Address::from_chunks(&chunks))
+        },
+        _ => match version {
+            "4" => generic::<Ipv4Address>(op, o),
+            _ => generic::<Ipv6Address>(op, o),
+        },
+    }
+}
+
+/// Performs the calls in the given request. Returns `None` if the request does not contain calls.
+pub fn call(args: &[String]) -> Option<i32> {
+    if args.get(1).map(|a| a.as_str()) != Some("@api") {
+        return None;
+    }
+
+    let mut i = 2;
+    while i + 1 < args.len() {
+        let (op, version) = (&args[i], &args[i+1]);
+        let end = i + 2 + operand_count(op);
+        let operands = &args[i+2..end];
+        match catch_unwind(AssertUnwindSafe(|| other(op, version, operands))) {
+            Ok(line) => println!("{}", line),
+            Err(_) => println!("panic"),
+        }
+        i = end;
+    }
+    Some(0)
+}
diff --git a/src/verif_hook.rs b/src/verif_hook.rs
new file mode 100644
index 0000000..21e7fa9
--- /dev/null
+++ b/src/verif_hook.rs
@@ -0,0 +1,65 @@
+//! Verification hook, compiled only with `--cfg ripcalc_verif`: serves many command lines in one
+//! process, so that runtime monitoring sees more executions per second.
+//!
+//! If the environment variable `RIPCALC_VERIF_SERVE` is set, requests are read from standard input.
+//! Each is a little-endian `u32` argument count, followed by that many arguments, each a
+//! little-endian `u32` length and as many bytes. After each request, a line consisting of a NUL byte
+//! and the exit code is written to both standard output and standard error. A panic is turned into
+//! exit code 101, as it would be without this hook.
+
+use std::io::{Read, Write};
+use std::panic::{AssertUnwindSafe, catch_unwind};
+use std::sync::Mutex;
+
+static CURRENT_ARGS: Mutex<Option<Vec<String>>> = Mutex::new(None);
+
+/// Returns the arguments of the request being served, or `real_args` if there is none.
+pub fn args(real_args: Vec<String>) -> Vec<String> {
+    CURRENT_ARGS.lock().unwrap().take().unwrap_or(real_args)
+}
+
+fn read_u32<R: Read>(reader: &mut R) -> Option<usize> {
+    let mut buf = [0u8; 4];
+    reader.read_exact(&mut buf).ok()?;
+    Some(u32::from_le_bytes(buf) as usize)
+}
+
+fn read_args<R: Read>(reader: &mut R) -> Option<Vec<String>> {
+    let arg_count = read_u32(reader)?;
+    let mut args = Vec::with_capacity(arg_count);
+    for _ in 0..arg_count {
+        let mut arg = vec![0u8; read_u32(reader)?];
+        reader.read_exact(&mut arg).ok()?;
+        args.push(String::from_utf8(arg).ok()?);
+    }
+    Some(args)
+}
+
+/// Serves requests until standard input ends, then exits. Does nothing if serving is not requested.
+pub fn serve<F: Fn() -> i32>(do_main: F) {
+    if std::env::var_os("RIPCALC_VERIF_SERVE").is_none() {
+        return;
+    }
+
+    let mut stdin = std::io::stdin().lock();
+    while let Some(args) = read_args(&mut stdin) {
+        #[cfg(ripcalc_verif_api)]
+        let api_result = crate::verif_api::call(&args);
+        #[cfg(not(ripcalc_verif_api))]
+        let api_result: Option<i32> = None;
+
+        let code = match api_result {
+            Some(code) => code,
+            None => {
+                *CURRENT_ARGS.lock().unwrap() = Some(args);
+                catch_unwind(AssertUnwindSafe(&do_main)).unwrap_or(101)
+            },
+        };
+        let marker = format!("\0{}\n", code);
+        let mut stdout = std::io::stdout().lock();
+        stdout.write_all(marker.as_bytes()).expect("write marker to stdout");
+        stdout.flush().expect("flush stdout");
+        std::io::stderr().write_all(marker.as_bytes()).expect("write marker to stderr");
+    }
+    std::process::exit(0);
+}
-- 
2.43.0


From cddc36d79f473492178c796bbdb8de17010dc4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:15 +0000
Subject: [PATCH 21/27] fix: compile with the num-bigint or console feature
 disabled

cfg!() only folds a condition, it does not remove the code that names the
missing crate or module; use #[cfg] so that every feature combination builds.
---
 src/cmds/show_net.rs | 3 ++-
 src/console.rs       | 3 ++-
 src/main.rs          | 7 +++++--
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 0dfc9bf..bdbb620 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -111,7 +111,8 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
     }
     println!();
 
-    if cfg!(feature = "num-bigint") {
+    #[cfg(feature = "num-bigint")]
+    {
         if net.host_count() > BigInt::from(0) {
             output_initial_columns("Hosts/Net:", &net.host_count().to_string());
             let top_bits = bytes_to_binary(&net.base_addr().to_bytes()[0..1]);
diff --git a/src/console.rs b/src/console.rs
index a9411b6..70552c4 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -50,7 +50,8 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    if cfg!(feature = "console") {
+    #[cfg(feature = "console")]
+    {
         if console::colors_enabled() {
             if let Some(clr) = color {
                 let styled = console::style(padded);
diff --git a/src/main.rs b/src/main.rs
index fe5af3e..593e865 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -63,12 +63,15 @@ fn do_main() -> i32 {
         return 1;
     }
 
+    #[cfg(feature = "num-bigint")]
+    if args[1] == "-s" || args[1] == "--split" {
+        return crate::cmds::split::split(&args);
+    }
+
     if args[1] == "-m" || args[1] == "--minimize" {
         crate::cmds::minimize::minimize(&args)
     } else if args[1] == "-d" || args[1] == "--derange" {
         crate::cmds::derange::derange(&args)
-    } else if cfg!(feature = "num-bigint") && (args[1] == "-s" || args[1] == "--split") {
-        crate::cmds::split::split(&args)
     } else if args[1] == "-r" || args[1] == "--resize" {
         crate::cmds::resize::resize(&args)
     } else if args[1] == "-e" || args[1] == "--enumerate" {
-- 
2.43.0


From 8b395f61776c438cfbe61bc6e4fcf9a1c38b40fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:01 +0000
Subject: [PATCH 22/27] fix: resize prints subnets as they are computed instead
 of keeping all of them in memory

---
 src/cmds/resize.rs | 65 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/cmds/resize.rs b/src/cmds/resize.rs
index 0192acd..257956d 100644
--- a/src/cmds/resize.rs
+++ b/src/cmds/resize.rs
@@ -76,36 +76,46 @@ pub fn resize(args: &[String]) -> i32 {
 }
 
 fn resize_and_output<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(initial_net: IpNetwork<A>, new_subnet_mask: A, output_network: ON) {
-    let (resized, net_ordering) = resize_network(initial_net, new_subnet_mask);
-
     println!("Original network:");
     output_network(initial_net, None);
     println!();
 
-    match net_ordering {
-        Ordering::Less => {
-            println!("Supernet:");
-            output_network(resized[0], None);
-            println!();
-        },
-        Ordering::Equal => {
-            println!("Same-sized net:");
-            output_network(resized[0], None);
-            println!();
-        },
-        Ordering::Greater => {
-            for i in 0..resized.len() {
-                println!("Subnet {}:", i+1);
-                output_network(resized[i], None);
-                println!();
-            }
-        },
-    }
+    let mut subnet_count: usize = 0;
+    resize_network_each(initial_net, new_subnet_mask, |net_ordering, net| {
+        match net_ordering {
+            Ordering::Less => {
+                println!("Supernet:");
+            },
+            Ordering::Equal => {
+                println!("Same-sized net:");
+            },
+            Ordering::Greater => {
+                subnet_count += 1;
+                println!("Subnet {}:", subnet_count);
+            },
+        }
+        output_network(net, None);
+        println!();
+    });
 }
 
 /// Resizes the given network to the given subnet mask, returning the network or networks created by
 /// this operation as well as whether a supernet, a same-sized net or multiple subnets were created.
+#[cfg(test)]
 pub fn resize_network<A: IpAddress>(initial_net: IpNetwork<A>, new_subnet_mask: A) -> (Vec<IpNetwork<A>>, Ordering) {
+    let mut nets = Vec::new();
+    let mut last_ordering = Ordering::Greater;
+    resize_network_each(initial_net, new_subnet_mask, |net_ordering, net| {
+        nets.push(net);
+        last_ordering = net_ordering;
+    });
+    (nets, last_ordering)
+}
+
+/// Resizes the given network to the given subnet mask, passing the network or networks created by
+/// this operation to a function one by one (there can be far too many to keep all of them in memory)
+/// along with whether a supernet, a same-sized net or multiple subnets were created.
+fn resize_network_each<A: IpAddress, F: FnMut(Ordering, IpNetwork<A>)>(initial_net: IpNetwork<A>, new_subnet_mask: A, mut on_network: F) {
     let initial_host_bits = initial_net.subnet_mask().count_zeros();
     let new_net_bits: usize = new_subnet_mask.count_ones().try_into().unwrap();
     let new_host_bits = new_subnet_mask.count_zeros();
@@ -117,32 +127,26 @@ pub fn resize_network<A: IpAddress>(initial_net: IpNetwork<A>, new_subnet_mask:
         let woven_new_base_addr = weave_address(unraveled_shortened_net.base_addr(), new_subnet_mask);
         let new_net = IpNetwork::new_with_mask(woven_new_base_addr, new_subnet_mask);
 
-        let mut nets = Vec::new();
-        nets.push(new_net);
-        (nets, Ordering::Less)
+        on_network(Ordering::Less, new_net);
     } else if new_host_bits == initial_host_bits {
         // samenet
         let unraveled_base_addr = unravel_address(initial_net.base_addr(), initial_net.subnet_mask());
         let woven_new_base_addr = weave_address(unraveled_base_addr, new_subnet_mask);
         let new_net = IpNetwork::new_with_mask(woven_new_base_addr, new_subnet_mask);
 
-        let mut nets = Vec::new();
-        nets.push(new_net);
-        (nets, Ordering::Equal)
+        on_network(Ordering::Equal, new_net);
     } else {
         // subnet(s)
 
         let unraveled_base_addr = unravel_address(initial_net.base_addr(), initial_net.subnet_mask());
         let unraveled_last_addr = unravel_address(initial_net.last_addr_of_subnet(), initial_net.subnet_mask());
 
-        let mut nets = Vec::new();
-
         let mut current_unraveled_base_addr = unraveled_base_addr;
         while current_unraveled_base_addr <= unraveled_last_addr {
             let woven_new_base_addr = weave_address(current_unraveled_base_addr, new_subnet_mask);
             let new_net = IpNetwork::new_with_mask(woven_new_base_addr, new_subnet_mask);
 
-            nets.push(new_net);
+            on_network(Ordering::Greater, new_net);
 
             if let Some(nsba) = new_net.next_subnet_base_addr() {
                 let unraveled_nsba = unravel_address(nsba, new_net.subnet_mask());
@@ -151,7 +155,6 @@ pub fn resize_network<A: IpAddress>(initial_net: IpNetwork<A>, new_subnet_mask:
                 break;
             }
         }
-        (nets, Ordering::Greater)
     }
 }
 
-- 
2.43.0


From 3fc6428d7a90ab450fedcea5205c4b0cfd921d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:49 +0000
Subject: [PATCH 23/27] fix: usage says that derange takes exactly two
 addresses

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 593e865..2366ae3 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -37,7 +37,7 @@ fn color_test() {
 fn usage() {
     eprintln!("Usage: ripcalc IPADDRESS/SUBNET...");
     eprintln!("       ripcalc -m|--minimize IPADDRESS/SUBNET...");
-    eprintln!("       ripcalc -d|--derange IPADDRESS IPADDRESS...");
+    eprintln!("       ripcalc -d|--derange IPADDRESS IPADDRESS");
     if cfg!(feature = "num-bigint") {
         eprintln!("       ripcalc -s|--split IPADDRESS/CIDRPREFIX HOSTCOUNT...");
     }
-- 
2.43.0


From eec58cecf14b10fae0978dc82201821ff31d4915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:41 +0000
Subject: [PATCH 24/27] fix: debianize packages 32-bit programs and tells byte
 orders apart

Every 32-bit program was refused ("invalid bitness: b'\x01'"), although three
32-bit architectures are known. Programs of another size or byte order than
Debian's architecture are refused instead of being labelled as that one.
---
 contrib/debianize.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index 4d769df..c389d04 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -65,7 +65,7 @@ def get_elf_machine(file_name):
         bits = 32
         if bitness == b"\x02":
             bits = 64
-        else:
+        elif bitness != b"\x01":
             raise ValueError("invalid bitness: {b}".format(b=repr(bitness)))
 
         endianness = f.read(1)
@@ -90,14 +90,15 @@ def get_elf_machine(file_name):
         # https://www.debian.org/ports/
         (machine_num,) = struct.unpack(machine_struct, machine)
         return {
-            0x28: "armel",
-            0x3E: "amd64",
-            0xB7: "arm64",
-            0x03: "i386",
-            0x08: "mipsel" if bits == 32 else "mips64el",
-            0x15: "ppc64el",
-            0x16: "s390x",
-        }[machine_num]
+            (0x28, 32, "<H"): "armel",
+            (0x3E, 64, "<H"): "amd64",
+            (0xB7, 64, "<H"): "arm64",
+            (0x03, 32, "<H"): "i386",
+            (0x08, 32, "<H"): "mipsel",
+            (0x08, 64, "<H"): "mips64el",
+            (0x15, 64, "<H"): "ppc64el",
+            (0x16, 64, ">H"): "s390x",
+        }[(machine_num, bits, machine_struct)]
 
 
 def get_elf_versions(file_name, lib_to_ver):
-- 
2.43.0


From 0078e9232a2da7ea90cd05f51abdcbe1afd383b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:41 +0000
Subject: [PATCH 25/27] fix: debianize does not pass the builder's umask on to
 the package

With a umask of 077, only root could read what the package installed; with one
of 0, everyone could write to it.
---
 contrib/debianize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index c389d04..e0b5f8d 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -247,6 +247,7 @@ def collect_data(temp_dir, code_dir, generated_files):
             "-f", "../data.tar.xz",
             "--owner=root:0",
             "--group=root:0",
+            "--mode=u=rwX,go=rX",
             ".",
         ],
         work_dir=data_dir,
@@ -347,6 +348,7 @@ Description: {sd}
             "-f", "../control.tar.gz",
             "--owner=root:0",
             "--group=root:0",
+            "--mode=u=rwX,go=rX",
             ".",
         ],
         work_dir=control_dir,
-- 
2.43.0


From cc2a9bab9d8ec42b0483a47e2d0a253bdd5a7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:41 +0000
Subject: [PATCH 26/27] fix: debianize runs its tools in the C locale

The changelog was dated in the builder's language, which dpkg does not
understand (or not at all if the locale is not one of UTF-8); a translated
readelf would have lost the dependencies.
---
 contrib/debianize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contrib/debianize.py b/contrib/debianize.py
index e0b5f8d..ff74f0f 100644
--- a/contrib/debianize.py
+++ b/contrib/debianize.py
@@ -47,6 +47,8 @@ def run_cmd(cmd_args, work_dir=None):
         cmd_args,
         stdout=subprocess.PIPE,
         cwd=work_dir,
+        # the output of some of these is parsed or packaged
+        env=dict(os.environ, LC_ALL="C"),
     )
     (stdout, _stderr) = subproc.communicate()
     result = subproc.wait()
-- 
2.43.0


From 9a1e1d7082feab666c874f65be6bb201dbb065f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:24 +0000
Subject: [PATCH 27/27] fix: resize numbers subnets alike on 32-bit platforms

---
 src/cmds/resize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmds/resize.rs b/src/cmds/resize.rs
index 257956d..898ce0d 100644
--- a/src/cmds/resize.rs
+++ b/src/cmds/resize.rs
@@ -80,7 +80,7 @@ fn resize_and_output<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(initial_net:
     output_network(initial_net, None);
     println!();
 
-    let mut subnet_count: usize = 0;
+    let mut subnet_count: u128 = 0;
     resize_network_each(initial_net, new_subnet_mask, |net_ordering, net| {
         match net_ordering {
             Ordering::Less => {
-- 
2.43.0

