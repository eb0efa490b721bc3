From a36dd38185dcbd27cb887c597d7c02d2a7248d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 01/19] fix: write_i32 accepts the full int32 range

'1 << 31 - 1' is 1 << 30, so values above 2^30 were refused.
---
 src/acetimetools/generator/byteutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/byteutils.py b/src/acetimetools/generator/byteutils.py
index 5c549f5..8d19915 100644
--- a/src/acetimetools/generator/byteutils.py
+++ b/src/acetimetools/generator/byteutils.py
@@ -71,8 +71,8 @@ def write_u32(data: bytearray, x: int) -> None:
 
 
 def write_i32(data: bytearray, x: int) -> None:
-    if x > (1 << 31 - 1):
-        raise ValueError(f"x={x} > {1<<31-1}, cannot write into int32")
+    if x > (1 << 31) - 1:
+        raise ValueError(f"x={x} > {(1<<31)-1}, cannot write into int32")
     if x < -(1 << 31):
         raise ValueError(f"x={x} < {-(1<<31)}, cannot write into int32")
     if x < 0:
-- 
2.43.0


From 030d21d3090bc7c50e426f60f45a5baadb533ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 02/19] fix: time_string_to_seconds() rejects malformed times

int() also accepts signs and underscores inside the hour, minute and second
fields, so that '1:-5' was read as 0:55, '--1' as 1:00 and '1_0' as 10:00.
---
 src/acetimetools/transformer/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..983468b 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1713,6 +1713,10 @@ def time_string_to_seconds(time_string: str) -> int:
     """Converts the '[-]hh:mm:ss' string into +/- total seconds from 00:00.
     Returns INVALID_SECONDS if there is a parsing error.
     """
+    # int() accepts more than digits (e.g. '+2', '-5', '1_0').
+    if not re.fullmatch('-?[0-9]+(:[0-9]+)*', time_string):
+        return INVALID_SECONDS
+
     sign = 1
     if time_string[0] == '-':
         sign = -1
-- 
2.43.0


From 22a9dce2f668e6c3e70924a70e1f11dec4643d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:23 +0000
Subject: [PATCH 03/19] fix: report an invalid or negative AT time instead of
 crashing

The f-strings were followed by a left-over '% at_time', which raises a
TypeError because there is no conversion left in the text.
---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 983468b..c10c24a 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1141,13 +1141,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0


From 58b9b8a3aea05395f060f42ad3193a53929bb62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 04/19] fix: reject invalid day numbers in ON and UNTIL
 expressions

'32' was accepted as a day, 'Sun>=0' was read as 'lastSun', 'Sun>=-8' as
'Sun<=8', and 'Sun>=x' crashed instead of being reported.
---
 src/acetimetools/transformer/transformer.py | 26 +++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index c10c24a..f2e941c 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1682,7 +1682,7 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
 
     """
     if on_string.isdigit():
-        return (0, int(on_string))
+        return (0, _parse_day_of_month(on_string))
 
     if on_string[:4] == 'last':
         dayOfWeek = on_string[4:]
@@ -1693,22 +1693,34 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
     greater_than_equal_index = on_string.find('>=')
     if greater_than_equal_index >= 0:
         dayOfWeek = on_string[:greater_than_equal_index]
-        dayOfMonth = on_string[greater_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[greater_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], dayOfMonth)
 
     less_than_equal_index = on_string.find('<=')
     if less_than_equal_index >= 0:
         dayOfWeek = on_string[:less_than_equal_index]
-        dayOfMonth = on_string[less_than_equal_index + 2:]
-        if dayOfWeek not in WEEK_TO_WEEK_INDEX:
+        dayOfMonth = _parse_day_of_month(
+            on_string[less_than_equal_index + 2:])
+        if dayOfWeek not in WEEK_TO_WEEK_INDEX or dayOfMonth == 0:
             return (0, 0)
-        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -int(dayOfMonth))
+        return (WEEK_TO_WEEK_INDEX[dayOfWeek], -dayOfMonth)
 
     return (0, 0)
 
 
+def _parse_day_of_month(day_string: str) -> int:
+    """Parse the 'dayOfMonth' component of an ON or UNTIL day. Return 0 if it
+    is not a number in the range of 1-31.
+    """
+    if not re.fullmatch('[0-9]+', day_string):
+        return 0
+    day = int(day_string)
+    return day if day <= 31 else 0
+
+
 def time_string_to_seconds(time_string: str) -> int:
     """Converts the '[-]hh:mm:ss' string into +/- total seconds from 00:00.
     Returns INVALID_SECONDS if there is a parsing error.
-- 
2.43.0


From 1a4dac05cd46669f348ac2e0d23e99424e028350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 05/19] fix: remove zones whose UNTIL day does not exist

An UNTIL such as '2001 Feb 30' was emitted as is.
---
 src/acetimetools/transformer/transformer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index f2e941c..ea9a7c1 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -526,6 +526,13 @@ class Transformer:
                         f"Shift to following year unsupported for "
                         f"{until_day_string}")
 
+                if day > _days_in_month(era['until_year'], month):
+                    valid = False
+                    add_comment(
+                        removed_zones, name,
+                        f"invalid until_day '{until_day_string}'")
+                    break
+
                 if era['until_month'] != month:
                     add_comment(
                         notable_zones, name,
-- 
2.43.0


From 6732ade38eabcbdcacf027e94745ddf117ae35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:27 +0000
Subject: [PATCH 06/19] fix: reject 'Xxx<=1' in January, which can shift to the
 previous year

The check for such shifts missed the day number 1.
---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index ea9a7c1..018e3c1 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1339,7 +1339,7 @@ class Transformer:
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
                     if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                            and on_day_of_month <= -1
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
-- 
2.43.0


From 95cafeb389befa02bfb96a9f3e91c854e65132c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 07/19] fix: clear UNTIL month, day and time of an era extended
 to +Infinity

---
 src/acetimetools/transformer/transformer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 018e3c1..67469d0 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -431,7 +431,14 @@ class Transformer:
         for name, info in zones_map.items():
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
+                # Clear the rest of the UNTIL field, because it refers to the
+                # original year, and makes no sense in MAX_UNTIL_YEAR.
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From ff06cddec88bc4155e4343bd4c404cff24270e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:17 +0000
Subject: [PATCH 08/19] fix: never turn a lone DST rule into a standard time
 anchor

---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 67469d0..978981a 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1382,7 +1382,7 @@ class Transformer:
         """
         for name, policy in policies_map.items():
             rules = policy['rules']
-            if len(rules) == 1:
+            if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
                 anchor_rule = _get_anchor_rule(rules)
-- 
2.43.0


From ed96d36d5c3408eaa484fdfcbde201187f278b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:19 +0000
Subject: [PATCH 09/19] fix: abort if SAVE does not fit in the int8
 delta_minutes field

---
 src/acetimetools/transformer/artransformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..0584292 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -225,7 +225,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
-- 
2.43.0


From a731faccc15ebd3673de83f53de520e9513fbe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:21 +0000
Subject: [PATCH 10/19] fix: generate the C zonedb in basic and extended scope

---
 src/acetimetools/generator/cgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..456d5a4 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -302,7 +302,7 @@ extern "C" {{
                 at_time_modifier_comment = \
                     f'{label} + minute={remaining_minutes}'
                 delta_code = rule['delta_code_encoded']
-                delta_minutes = rule['delta_minutes']
+                delta_minutes = rule['delta_seconds_truncated'] // 60
                 delta_code_comment = f"(delta_minutes={delta_minutes})/15 + 4"
 
             if self.generate_tiny_years:
@@ -657,7 +657,7 @@ const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name} {progmem} = {{
             offset_code = era['offset_code']
             delta_code = era['delta_code_encoded']
             offset_minute = era['offset_minute']
-            delta_minutes = era['delta_minutes']
+            delta_minutes = era['era_delta_seconds_truncated'] // 60
             delta_code_comment = (
                 f"((offset_minute={offset_minute}) << 4) + "
                 f"((delta_minutes={delta_minutes})/15 + 4)"
-- 
2.43.0


From 0d7d59ac4f204245be97ddaddf13b9741fb90a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 11/19] fix: honour --granularity, which was parsed but ignored

---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..a80341d 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -473,6 +473,10 @@ def main() -> None:
         offset_granularity = args.offset_granularity
     if args.delta_granularity:
         delta_granularity = args.delta_granularity
+    if args.granularity:
+        until_at_granularity = args.granularity
+        offset_granularity = args.granularity
+        delta_granularity = args.granularity
 
     logging.info('======== TZ Compiler settings')
     logging.info(f'Scope: {args.scope}')
-- 
2.43.0


From 593a229569ec485656e808d8973d96e91691690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:41 +0000
Subject: [PATCH 12/19] fix: abort if two generated policies have the same
 symbol

'E-Eur' and 'E_Eur' both became kZonePolicyE_Eur. Zones and links were already
checked for this.
---
 src/acetimetools/transformer/transformer.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 978981a..d4176c6 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -188,6 +188,7 @@ class Transformer:
         links_map = self._remove_links_to_missing_zones(links_map, zones_map)
         self._verify_zones_until_year(zones_map)
         self._verify_policies_from_year(policies_map)
+        _detect_policies_with_similar_names(policies_map)
         self._verify_zones_and_links_count(
             zones_map, links_map, expected_zones_count, expected_links_count)
 
@@ -2188,6 +2189,20 @@ def _detect_zones_and_links_with_similar_names(
         result_links[link_name] = zone_name
 
 
+def _detect_policies_with_similar_names(policies_map: PoliciesMap) -> None:
+    """Same as _detect_zones_and_links_with_similar_names() but for the policies,
+    whose normalized names become symbols such as "kZonePolicyE_Eur".
+    """
+    normalized_names: Dict[str, str] = {}  # normalized_name, name
+    for policy_name in policies_map.keys():
+        nname = normalize_name(policy_name)
+        if nname in normalized_names:
+            raise Exception(
+                f"Duplicate normalized policy name: {policy_name} -> {nname}"
+            )
+        normalized_names[nname] = policy_name
+
+
 def _detect_tzdb_years(
     zones_map: ZonesMap, policies_map: PoliciesMap,
 ) -> Tuple[int, int]:
-- 
2.43.0


From e7f00f8731c8a53b6a5ae474fc12218b1b214794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:28 +0000
Subject: [PATCH 13/19] fix: do not emit policies whose only zones were removed

In basic scope a zone is dropped when one of its policies is unusable, which
left its other policies in the database although no zone refers to them.
---
 src/acetimetools/transformer/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index d4176c6..ae662fc 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -185,6 +185,7 @@ class Transformer:
 
         # Part 6: Remove unused zones and links, and verify some invariants.
         zones_map = self._remove_zones_without_rules(zones_map, policies_map)
+        policies_map = self._remove_unused_policies(zones_map, policies_map)
         links_map = self._remove_links_to_missing_zones(links_map, zones_map)
         self._verify_zones_until_year(zones_map)
         self._verify_policies_from_year(policies_map)
-- 
2.43.0


From 0c367b97aa028c463aee1721de44b37b5c4e5159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 14/19] fix: remove zones whose final era ends inside the
 interval

The last era was always extended to +Infinity, so the check for an invalid
final UNTIL could never fail. Only an era whose successors were removed because
they are too new may be extended.
---
 src/acetimetools/transformer/transformer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index ae662fc..8e6b044 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -432,7 +432,10 @@ class Transformer:
         """
         for name, info in zones_map.items():
             last_era = info['eras'][-1]
-            if last_era['until_year'] != MAX_UNTIL_YEAR:
+            # A source zone which ends inside the interval is not extended. It
+            # is removed by _remove_zones_with_non_monotonic_until().
+            if (last_era['until_year'] != MAX_UNTIL_YEAR
+                    and last_era['until_year'] > self.until_year + 1):
                 # Clear the rest of the UNTIL field, because it refers to the
                 # original year, and makes no sense in MAX_UNTIL_YEAR.
                 last_era['until_year'] = MAX_UNTIL_YEAR
-- 
2.43.0


From 40ee6a9ce492becdbae62a0011257e44d816e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:11 +0000
Subject: [PATCH 15/19] fix: remove zones whose truncated UNTIL does not
 increase

Two different UNTIL times can be truncated to the same time if strict is
disabled, which generated an era of zero length.
---
 src/acetimetools/transformer/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 8e6b044..f67ec4a 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -947,7 +947,8 @@ class Transformer:
                     era['until_year'],
                     era['until_month'] if era['until_month'] else 0,
                     era['until_day'] if era['until_day_string'] else 0,
-                    era['until_seconds'] if era['until_seconds'] else 0
+                    era['until_seconds_truncated']
+                    if era['until_seconds_truncated'] else 0
                 )
                 if prev_until:
                     if c <= prev_until:
-- 
2.43.0


From 8811e05f5ec852268a6e31bba6ecf116303ecfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:07 +0000
Subject: [PATCH 16/19] fix: read continuation lines that are indented with
 spaces

---
 src/acetimetools/extractor/extractor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..00eb70b 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -176,9 +176,9 @@ class Extractor:
                 in_zone_mode = True
                 # prev_tag = tag
                 prev_name = zone_name
-            elif tag[0] == '\t' and in_zone_mode:
-                # Collect subsequent lines that begin with a TAB character into
-                # the current 'Zone' entry.
+            elif tag[0].isspace() and in_zone_mode:
+                # Collect subsequent lines that begin with a TAB or SPACE
+                # character into the current 'Zone' entry.
                 _add_item(self.zone_lines, prev_name, line)
 
     def _process_rules(self) -> None:
-- 
2.43.0


From 6fb76b1ceff2b9f13dc849886c41b1917a85f9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:36 +0000
Subject: [PATCH 17/19] fix: refuse more letters, rules or eras than fit in
 their uint8_t fields

---
 src/acetimetools/transformer/artransformer.py | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 0584292..fc0a22d 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -99,6 +99,7 @@ class ArduinoTransformer:
 
         self.letters_map = _collect_letter_strings(self.policies_map)
         self.formats_map = _collect_format_strings(self.zones_map)
+        self._verify_counts()
 
         self._process_rules_from_to_at(self.policies_map)
         self._process_rules_letter(self.policies_map, self.letters_map)
@@ -145,6 +146,27 @@ class ArduinoTransformer:
             f"; {len(tresult.links_map)} Links"
         )
 
+    def _verify_counts(self) -> None:
+        """Verify that the number of letters (numLetters, letterIndex), the
+        number of rules in each policy (numRules), and the number of eras in
+        each zone (numEras) fit in their uint8_t fields.
+        """
+        num_letters = len(self.letters_map)
+        if num_letters > 255:
+            raise Exception(f'num_letters={num_letters} does not fit in 1 byte')
+        for policy_name, policy in self.policies_map.items():
+            num_rules = len(policy['rules'])
+            if num_rules > 255:
+                raise Exception(
+                    f'{policy_name}: num_rules={num_rules} '
+                    'does not fit in 1 byte')
+        for zone_name, info in self.zones_map.items():
+            num_eras = len(info['eras'])
+            if num_eras > 255:
+                raise Exception(
+                    f'{zone_name}: num_eras={num_eras} '
+                    'does not fit in 1 byte')
+
     def _process_rules_from_to_at(self, policies_map: PoliciesMap) -> None:
         """Convert the FROM, TO, and AT fields of ZoneRuleRaw into values that
         are consumed by the ZonePolicy classes of the Arduino AceTime library.
-- 
2.43.0


From 21c911338bb79c15b03438585cc2b31a6692b1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:01 +0000
Subject: [PATCH 18/19] fix: accept rules on 'dayOfWeek<=7' of January

The date is always one of January 1 to 7, so that it does not shift into the
previous year: as the comment says, only 'dayOfWeek<=6' and below do. The basic
scope refuses it with its other transitions that can fall on January 1.
---
 src/acetimetools/transformer/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index f67ec4a..2202bc1 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1351,7 +1351,7 @@ class Transformer:
                 # "dayOfWeek<=6" or "dayOfWeek>=26" if the shift causes the year
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
-                    if (-7 <= on_day_of_month
+                    if (-6 <= on_day_of_month
                             and on_day_of_month <= -1
                             and rule['in_month'] == 1):
                         valid = False
@@ -1443,7 +1443,8 @@ class Transformer:
                 month = rule['in_month']
                 on_day_of_month = rule['on_day_of_month']
                 if from_year > MIN_YEAR and to_year > MIN_YEAR:
-                    if month == 1 and on_day_of_month == 1:
+                    # An on_day_of_month of -7 is "dayOfWeek<=7".
+                    if month == 1 and on_day_of_month in (1, -7):
                         valid = False
                         add_comment(
                             removed_policies, name,
-- 
2.43.0


From 14e7dbbfff24f929153d133aec4929abcaf0116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:44 +0000
Subject: [PATCH 19/19] fix: a run that fails no longer leaves half of the
 files of a language

The Arduino, C and Go generators wrote zone_policies.* before generating
zone_infos.*, so that a value which does not fit its Go field (for example a
RULES amount of 2:08 or an UNTIL year of 40000), or the missing buffer sizes
of --skip_bufestimator, left new policies beside old or missing infos.
---
 src/acetimetools/generator/argenerator.py | 29 +++++++++------------
 src/acetimetools/generator/cgenerator.py  | 29 +++++++++------------
 src/acetimetools/generator/gogenerator.py | 31 ++++++++++-------------
 3 files changed, 38 insertions(+), 51 deletions(-)

diff --git a/src/acetimetools/generator/argenerator.py b/src/acetimetools/generator/argenerator.py
index 386a626..c8cb125 100644
--- a/src/acetimetools/generator/argenerator.py
+++ b/src/acetimetools/generator/argenerator.py
@@ -102,23 +102,18 @@ class ArduinoGenerator:
         self.zone_and_link_ids.update(self.link_ids)
 
     def generate_files(self, output_dir: str) -> None:
-        # zone_policies.*
-        self._write_file(output_dir, self.ZONE_POLICIES_H_FILE_NAME,
-                         self.generate_policies_h())
-        self._write_file(output_dir, self.ZONE_POLICIES_CPP_FILE_NAME,
-                         self.generate_policies_cpp())
-
-        # zone_infos.*
-        self._write_file(output_dir, self.ZONE_INFOS_H_FILE_NAME,
-                         self.generate_infos_h())
-        self._write_file(output_dir, self.ZONE_INFOS_CPP_FILE_NAME,
-                         self.generate_infos_cpp())
-
-        # zone_registry.*
-        self._write_file(output_dir, self.ZONE_REGISTRY_H_FILE_NAME,
-                         self.generate_registry_h())
-        self._write_file(output_dir, self.ZONE_REGISTRY_CPP_FILE_NAME,
-                         self.generate_registry_cpp())
+        # Generate everything before the first file is written, so that an
+        # exception does not leave half of the files.
+        files = [
+            (self.ZONE_POLICIES_H_FILE_NAME, self.generate_policies_h()),
+            (self.ZONE_POLICIES_CPP_FILE_NAME, self.generate_policies_cpp()),
+            (self.ZONE_INFOS_H_FILE_NAME, self.generate_infos_h()),
+            (self.ZONE_INFOS_CPP_FILE_NAME, self.generate_infos_cpp()),
+            (self.ZONE_REGISTRY_H_FILE_NAME, self.generate_registry_h()),
+            (self.ZONE_REGISTRY_CPP_FILE_NAME, self.generate_registry_cpp()),
+        ]
+        for filename, content in files:
+            self._write_file(output_dir, filename, content)
 
     def _write_file(self, output_dir: str, filename: str, content: str) -> None:
         full_filename = os.path.join(output_dir, filename)
diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 456d5a4..a89d8ec 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -109,23 +109,18 @@ class CGenerator:
         self.zone_and_link_ids.update(self.link_ids)
 
     def generate_files(self, output_dir: str) -> None:
-        # zone_policies.*
-        self._write_file(output_dir, self.ZONE_POLICIES_H_FILE_NAME,
-                         self.generate_policies_h())
-        self._write_file(output_dir, self.ZONE_POLICIES_C_FILE_NAME,
-                         self.generate_policies_c())
-
-        # zone_infos.*
-        self._write_file(output_dir, self.ZONE_INFOS_H_FILE_NAME,
-                         self.generate_infos_h())
-        self._write_file(output_dir, self.ZONE_INFOS_C_FILE_NAME,
-                         self.generate_infos_c())
-
-        # zone_registry.*
-        self._write_file(output_dir, self.ZONE_REGISTRY_H_FILE_NAME,
-                         self.generate_registry_h())
-        self._write_file(output_dir, self.ZONE_REGISTRY_C_FILE_NAME,
-                         self.generate_registry_c())
+        # Generate everything before the first file is written, so that an
+        # exception does not leave half of the files.
+        files = [
+            (self.ZONE_POLICIES_H_FILE_NAME, self.generate_policies_h()),
+            (self.ZONE_POLICIES_C_FILE_NAME, self.generate_policies_c()),
+            (self.ZONE_INFOS_H_FILE_NAME, self.generate_infos_h()),
+            (self.ZONE_INFOS_C_FILE_NAME, self.generate_infos_c()),
+            (self.ZONE_REGISTRY_H_FILE_NAME, self.generate_registry_h()),
+            (self.ZONE_REGISTRY_C_FILE_NAME, self.generate_registry_c()),
+        ]
+        for filename, content in files:
+            self._write_file(output_dir, filename, content)
 
     def _write_file(self, output_dir: str, filename: str, content: str) -> None:
         full_filename = os.path.join(output_dir, filename)
diff --git a/src/acetimetools/generator/gogenerator.py b/src/acetimetools/generator/gogenerator.py
index 4f54d3c..438f732 100644
--- a/src/acetimetools/generator/gogenerator.py
+++ b/src/acetimetools/generator/gogenerator.py
@@ -106,23 +106,20 @@ class GoGenerator:
         self.zone_and_link_ids.update(self.link_ids)
 
     def generate_files(self, output_dir: str) -> None:
-        self._write_file(output_dir, self.ZONE_POLICIES_FILE_NAME,
-                         self._generate_policies())
-        self._write_file(output_dir, self.ZONE_POLICIES_TEST_FILE_NAME,
-                         self._generate_policies_test())
-
-        self._write_file(output_dir, self.ZONE_INFOS_FILE_NAME,
-                         self._generate_infos())
-        self._write_file(output_dir, self.ZONE_INFOS_TEST_FILE_NAME,
-                         self._generate_infos_test())
-
-        self._write_file(output_dir, self.ZONE_REGISTRY_FILE_NAME,
-                         self._generate_registry())
-        self._write_file(output_dir, self.ZONE_REGISTRY_TEST_FILE_NAME,
-                         self._generate_registry_test())
-
-        self._write_file(output_dir, self.READER_TEST_FILE_NAME,
-                         self._generate_reader_test())
+        # Generate everything before the first file is written, because a value
+        # that does not fit its field raises an exception.
+        files = [
+            (self.ZONE_POLICIES_FILE_NAME, self._generate_policies()),
+            (self.ZONE_POLICIES_TEST_FILE_NAME, self._generate_policies_test()),
+            (self.ZONE_INFOS_FILE_NAME, self._generate_infos()),
+            (self.ZONE_INFOS_TEST_FILE_NAME, self._generate_infos_test()),
+            (self.ZONE_REGISTRY_FILE_NAME, self._generate_registry()),
+            (self.ZONE_REGISTRY_TEST_FILE_NAME,
+             self._generate_registry_test()),
+            (self.READER_TEST_FILE_NAME, self._generate_reader_test()),
+        ]
+        for filename, content in files:
+            self._write_file(output_dir, filename, content)
 
     def _write_file(self, output_dir: str, filename: str, content: str) -> None:
         full_filename = os.path.join(output_dir, filename)
-- 
2.43.0

