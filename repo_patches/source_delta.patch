From 63796acce518b5f232097870c527ad526af839f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:29 +0000
Subject: [PATCH 01/11] fix: reject malformed hex digits in keys, event fields
 and tag ids

sscanf("%2hhx") accepts one-digit pairs, signs and leading blanks, so
strings that are not hex decoded to some key or id.
---
 src/event.c          |  7 +------
 src/key.c            | 12 ++++--------
 src/relay_protocol.c |  8 ++------
 3 files changed, 7 insertions(+), 20 deletions(-)

diff --git a/src/event.c b/src/event.c
index 733e358..e68e583 100644
--- a/src/event.c
+++ b/src/event.c
@@ -445,12 +445,7 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
         return 0;
     }
 
-    for (size_t i = 0; i < bytes_len; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &bytes[i]) != 1) {
-            return 0;
-        }
-    }
-    return 1;
+    return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
 nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
diff --git a/src/key.c b/src/key.c
index 8b511ed..2802f08 100644
--- a/src/key.c
+++ b/src/key.c
@@ -385,10 +385,8 @@ nostr_error_t nostr_key_from_hex(const char* hex, nostr_key* key) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PUBKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &key->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, key->data, NOSTR_PUBKEY_SIZE) != NOSTR_PUBKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
@@ -416,10 +414,8 @@ nostr_error_t nostr_privkey_from_hex(const char* hex, nostr_privkey* privkey) {
         return NOSTR_ERR_INVALID_KEY;
     }
     
-    for (int i = 0; i < NOSTR_PRIVKEY_SIZE; i++) {
-        if (sscanf(hex + i * 2, "%2hhx", &privkey->data[i]) != 1) {
-            return NOSTR_ERR_INVALID_KEY;
-        }
+    if (nostr_hex_decode(hex, privkey->data, NOSTR_PRIVKEY_SIZE) != NOSTR_PRIVKEY_SIZE) {
+        return NOSTR_ERR_INVALID_KEY;
     }
     
     return NOSTR_OK;
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index a698e1b..902daa8 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -835,12 +835,8 @@ static nostr_relay_error_t hex_string_to_bytes(const char* hex, uint8_t* out, si
     size_t hex_len = strlen(hex);
     if (hex_len != out_size * 2) return NOSTR_RELAY_ERR_INVALID_ID;
 
-    for (size_t i = 0; i < out_size; i++) {
-        unsigned int byte;
-        if (sscanf(hex + i * 2, "%2x", &byte) != 1) {
-            return NOSTR_RELAY_ERR_INVALID_ID;
-        }
-        out[i] = (uint8_t)byte;
+    if (nostr_hex_decode(hex, out, out_size) != (int)out_size) {
+        return NOSTR_RELAY_ERR_INVALID_ID;
     }
     return NOSTR_RELAY_OK;
 }
-- 
2.43.0


From 8ba6ce98872293928fb10ae7890394bda502917c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:53 +0000
Subject: [PATCH 02/11] fix: size bech32 decode buffers for a full 90 character
 string and reject short data parts

---
 src/bech32.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bech32.c b/src/bech32.c
index 5bb58d9..b348175 100644
--- a/src/bech32.c
+++ b/src/bech32.c
@@ -179,7 +179,7 @@ nostr_error_t nostr_key_from_bech32(const char* bech32, nostr_key* key) {
     strncpy(hrp, bech32, sep);
     hrp[sep] = '\0';
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = sep + 1; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -246,11 +246,11 @@ nostr_error_t nostr_privkey_from_bech32(const char* bech32, nostr_privkey* privk
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
@@ -317,11 +317,11 @@ nostr_error_t nostr_event_id_from_bech32(const char* bech32, uint8_t* id) {
     }
     
     size_t len = strlen(bech32);
-    if (len < 8 || len > 90) {
+    if (len < 5 + 6 || len > 90) {
         return NOSTR_ERR_ENCODING;
     }
     
-    uint8_t data[84];
+    uint8_t data[90];
     for (int i = 5; i < len; i++) {
         int val = bech32_charset_decode(bech32[i]);
         if (val == -1) {
-- 
2.43.0


From 23475e72ec78bbabf1a80ee3a0715e3a2db81cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:31 +0000
Subject: [PATCH 03/11] fix: keep tag arena blocks aligned and relocate them
 without stale pointers

---
 src/event.c | 27 +++++++++++++++---------
 src/nip13.c | 59 +++++++++++++++++++++++++++++------------------------
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/src/event.c b/src/event.c
index e68e583..5d4db7c 100644
--- a/src/event.c
+++ b/src/event.c
@@ -97,6 +97,7 @@ nostr_error_t nostr_event_create(nostr_event** event)
 
     if (tag_arena_create(&(*event)->tag_arena, 1024) != NOSTR_OK) {
         free(*event);
+        *event = NULL;
         return NOSTR_ERR_MEMORY;
     }
 
@@ -158,6 +159,12 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
         strings_size += slen;
     }
 
+    /* keep the arena aligned so the next tag's pointer array is too */
+    if (strings_size > SIZE_MAX - (sizeof(char*) - 1)) {
+        return NOSTR_ERR_INVALID_PARAM;
+    }
+    strings_size = (strings_size + sizeof(char*) - 1) / sizeof(char*) * sizeof(char*);
+
     if (values_size > SIZE_MAX - strings_size) {
         return NOSTR_ERR_INVALID_PARAM;
     }
@@ -172,23 +179,23 @@ nostr_error_t nostr_event_add_tag(nostr_event* event, const char** values, size_
             new_capacity = doubled;
         }
         
-        void* old_memory = event->tag_arena->memory;
-        void* new_memory = realloc(event->tag_arena->memory, new_capacity);
+        char* old_memory = event->tag_arena->memory;
+        char* new_memory = malloc(new_capacity);
         if (!new_memory) {
             return NOSTR_ERR_MEMORY;
         }
+        memcpy(new_memory, old_memory, event->tag_arena->used);
 
-        if (new_memory != old_memory) {
-            ptrdiff_t offset = (char*)new_memory - (char*)old_memory;
-            for (size_t i = 0; i < event->tags_count; i++) {
-                event->tags[i].values = (char**)((char*)event->tags[i].values + offset);
-                for (size_t j = 0; j < event->tags[i].count; j++) {
-                    if (event->tags[i].values[j]) {
-                        event->tags[i].values[j] += offset;
-                    }
+        for (size_t i = 0; i < event->tags_count; i++) {
+            char** moved = (char**)(new_memory + ((char*)event->tags[i].values - old_memory));
+            for (size_t j = 0; j < event->tags[i].count; j++) {
+                if (moved[j]) {
+                    moved[j] = new_memory + (moved[j] - old_memory);
                 }
             }
+            event->tags[i].values = moved;
         }
+        free(old_memory);
 
         event->tag_arena->memory = new_memory;
         event->tag_arena->capacity = new_capacity;
diff --git a/src/nip13.c b/src/nip13.c
index 0adc5e6..9b4ff27 100644
--- a/src/nip13.c
+++ b/src/nip13.c
@@ -70,6 +70,9 @@ static nostr_error_t find_nonce_tag_index(const nostr_event* event, size_t* inde
     return NOSTR_ERR_NOT_FOUND;
 }
 
+// Arena blocks stay pointer-aligned because value arrays live there too
+#define ARENA_ALIGN(n) (((n) + sizeof(char*) - 1) / sizeof(char*) * sizeof(char*))
+
 // Ensure arena has enough capacity, growing if needed and updating pointers
 static int arena_ensure_capacity(nostr_event* event, size_t needed)
 {
@@ -86,23 +89,23 @@ static int arena_ensure_capacity(nostr_event* event, size_t needed)
         new_capacity *= 2;
     }
 
-    void* old_memory = event->tag_arena->memory;
-    void* new_memory = realloc(event->tag_arena->memory, new_capacity);
+    char* old_memory = event->tag_arena->memory;
+    char* new_memory = malloc(new_capacity);
     if (!new_memory) {
         return -1;
     }
+    memcpy(new_memory, old_memory, event->tag_arena->used);
 
-    if (new_memory != old_memory) {
-        ptrdiff_t offset = (char*)new_memory - (char*)old_memory;
-        for (size_t i = 0; i < event->tags_count; i++) {
-            event->tags[i].values = (char**)((char*)event->tags[i].values + offset);
-            for (size_t j = 0; j < event->tags[i].count; j++) {
-                if (event->tags[i].values[j]) {
-                    event->tags[i].values[j] += offset;
-                }
+    for (size_t i = 0; i < event->tags_count; i++) {
+        char** moved = (char**)(new_memory + ((char*)event->tags[i].values - old_memory));
+        for (size_t j = 0; j < event->tags[i].count; j++) {
+            if (moved[j]) {
+                moved[j] = new_memory + (moved[j] - old_memory);
             }
         }
+        event->tags[i].values = moved;
     }
+    free(old_memory);
 
     event->tag_arena->memory = new_memory;
     event->tag_arena->capacity = new_capacity;
@@ -117,13 +120,14 @@ static char* arena_strdup(nostr_event* event, const char* str)
     }
 
     size_t len = strlen(str) + 1;
+    size_t size = ARENA_ALIGN(len);
 
-    if (arena_ensure_capacity(event, len) != 0) {
+    if (arena_ensure_capacity(event, size) != 0) {
         return NULL;
     }
 
     char* ptr = (char*)event->tag_arena->memory + event->tag_arena->used;
-    event->tag_arena->used += len;
+    event->tag_arena->used += size;
     memcpy(ptr, str, len);
     return ptr;
 }
@@ -157,6 +161,22 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
         // Update existing nonce tag
         // Note: Old strings remain in arena (can't be individually freed) but will be
         // cleaned up when the event is destroyed. This is acceptable for mining workloads.
+        size_t values_size = event->tags[nonce_idx].count < count ? count * sizeof(char*) : 0;
+        if (arena_ensure_capacity(event, values_size + ARENA_ALIGN(sizeof(nonce_str)) +
+                                         ARENA_ALIGN(sizeof(target_str))) != 0) {
+            return NOSTR_ERR_MEMORY;
+        }
+
+        if (values_size > 0) {
+            // Need to expand values array - allocate new array from arena
+            char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
+            event->tag_arena->used += values_size;
+            memset(new_values, 0, values_size);
+            memcpy(new_values, event->tags[nonce_idx].values, event->tags[nonce_idx].count * sizeof(char*));
+            event->tags[nonce_idx].values = new_values;
+            event->tags[nonce_idx].count = count;
+        }
+
         char* new_nonce = arena_strdup(event, nonce_str);
         if (!new_nonce) {
             return NOSTR_ERR_MEMORY;
@@ -164,21 +184,6 @@ nostr_error_t nostr_nip13_add_nonce_tag(nostr_event* event, uint64_t nonce_value
         event->tags[nonce_idx].values[1] = new_nonce;
 
         if (target_difficulty > 0) {
-            if (event->tags[nonce_idx].count < 3) {
-                // Need to expand values array - allocate new array from arena
-                size_t new_values_size = 3 * sizeof(char*);
-                if (arena_ensure_capacity(event, new_values_size) != 0) {
-                    return NOSTR_ERR_MEMORY;
-                }
-                char** new_values = (char**)((char*)event->tag_arena->memory + event->tag_arena->used);
-                event->tag_arena->used += new_values_size;
-                new_values[0] = event->tags[nonce_idx].values[0];
-                new_values[1] = event->tags[nonce_idx].values[1];
-                new_values[2] = NULL;
-                event->tags[nonce_idx].values = new_values;
-                event->tags[nonce_idx].count = 3;
-            }
-
             char* new_target = arena_strdup(event, target_str);
             if (!new_target) {
                 return NOSTR_ERR_MEMORY;
-- 
2.43.0


From 6b3fe554eefa50dfe697b63aebdd4e6ecd9288de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:05 +0000
Subject: [PATCH 04/11] fix: fail instead of dropping event fields when a JSON
 node cannot be allocated

---
 src/event.c          | 46 +++++++++++++++++++++++++++++++++++++++-----
 src/relay_protocol.c | 12 ++++++++++--
 2 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/event.c b/src/event.c
index 5d4db7c..eb5486a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -287,6 +287,26 @@ static char* escape_json_string(const char* input)
 }
 #endif
 
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+/* cJSON drops an item it cannot allocate: check that none is missing */
+int nostr_event_json_complete(const cJSON* root, int fields, const cJSON* tags_array, const nostr_event* event);
+
+int nostr_event_json_complete(const cJSON* root, int fields, const cJSON* tags_array, const nostr_event* event)
+{
+    if (cJSON_GetArraySize(root) != fields || (size_t)cJSON_GetArraySize(tags_array) != event->tags_count) {
+        return 0;
+    }
+
+    const cJSON* tag_array = tags_array->child;
+    for (size_t i = 0; i < event->tags_count; i++, tag_array = tag_array->next) {
+        if ((size_t)cJSON_GetArraySize(tag_array) != event->tags[i].count) {
+            return 0;
+        }
+    }
+    return 1;
+}
+#endif
+
 static char* serialize_for_id(const nostr_event* event)
 {
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
@@ -299,14 +319,20 @@ static char* serialize_for_id(const nostr_event* event)
     pubkey_hex[64] = '\0';
 
     cJSON* serialization = cJSON_CreateArray();
+    if (!serialization) {
+        return NULL;
+    }
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(0));
     cJSON_AddItemToArray(serialization, cJSON_CreateString(pubkey_hex));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->created_at));
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
+    for (size_t i = 0; tags_array && i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
+        if (!tag_array) {
+            break;
+        }
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
             cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
@@ -316,7 +342,10 @@ static char* serialize_for_id(const nostr_event* event)
     cJSON_AddItemToArray(serialization, tags_array);
     cJSON_AddItemToArray(serialization, cJSON_CreateString(content));
 
-    char* result = cJSON_PrintUnformatted(serialization);
+    char* result = NULL;
+    if (nostr_event_json_complete(serialization, 6, tags_array, event)) {
+        result = cJSON_PrintUnformatted(serialization);
+    }
 
     cJSON_Delete(serialization);
 
@@ -419,15 +448,22 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     cJSON_AddNumberToObject(root, "kind", event->kind);
 
     cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
+    for (size_t i = 0; tags_array && i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
+        if (!tag_array) {
+            break;
+        }
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
             cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
         }
         cJSON_AddItemToArray(tags_array, tag_array);
     }
-    cJSON_AddItemToObject(root, "tags", tags_array);
+    if (!cJSON_AddItemToObject(root, "tags", tags_array)) {
+        cJSON_Delete(tags_array);
+        cJSON_Delete(root);
+        return NOSTR_ERR_MEMORY;
+    }
 
     cJSON_AddStringToObject(root, "content", event->content ? event->content : "");
 
@@ -437,7 +473,7 @@ nostr_error_t nostr_event_to_json(const nostr_event* event, char** json)
     hex_buffer[128] = '\0';
     cJSON_AddStringToObject(root, "sig", hex_buffer);
 
-    *json = cJSON_Print(root);
+    *json = nostr_event_json_complete(root, 7, tags_array, event) ? cJSON_Print(root) : NULL;
     cJSON_Delete(root);
 
     return *json ? NOSTR_OK : NOSTR_ERR_MEMORY;
diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 902daa8..8aaab44 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -11,6 +11,8 @@
 
 #ifdef NOSTR_FEATURE_JSON_ENHANCED
 #include <cjson/cJSON.h>
+
+extern int nostr_event_json_complete(const cJSON* root, int fields, const cJSON* tags_array, const nostr_event* event);
 #endif
 
 const char* nostr_relay_error_string(nostr_relay_error_t error)
@@ -333,8 +335,11 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
     cJSON_AddItemToArray(serialization, cJSON_CreateNumber(event->kind));
 
     cJSON* tags_array = cJSON_CreateArray();
-    for (size_t i = 0; i < event->tags_count; i++) {
+    for (size_t i = 0; tags_array && i < event->tags_count; i++) {
         cJSON* tag_array = cJSON_CreateArray();
+        if (!tag_array) {
+            break;
+        }
         for (size_t j = 0; j < event->tags[i].count; j++) {
             const char* tag_value = event->tags[i].values[j] ? event->tags[i].values[j] : "";
             cJSON_AddItemToArray(tag_array, cJSON_CreateString(tag_value));
@@ -345,7 +350,10 @@ nostr_relay_error_t nostr_event_serialize_canonical(const nostr_event* event, ch
 
     cJSON_AddItemToArray(serialization, cJSON_CreateString(event->content ? event->content : ""));
 
-    char* json_str = cJSON_PrintUnformatted(serialization);
+    char* json_str = NULL;
+    if (nostr_event_json_complete(serialization, 6, tags_array, event)) {
+        json_str = cJSON_PrintUnformatted(serialization);
+    }
     cJSON_Delete(serialization);
 
     if (!json_str) {
-- 
2.43.0


From 8bafa35f13942488fe44ff54f83abe6749dd3619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 05/11] fix: reject out-of-range kind and created_at and never
 hand back a freed event

---
 src/event.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/event.c b/src/event.c
index eb5486a..f0dd59a 100644
--- a/src/event.c
+++ b/src/event.c
@@ -491,7 +491,14 @@ static int hex_to_bytes(const char* hex, unsigned char* bytes, size_t bytes_len)
     return nostr_hex_decode(hex, bytes, bytes_len) == (int)bytes_len;
 }
 
-nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+#ifdef NOSTR_FEATURE_JSON_ENHANCED
+static int json_integer_in_range(double value, double min, double max)
+{
+    return value >= min && value <= max && value == (double)(int64_t)value;
+}
+#endif
+
+static nostr_error_t event_parse_json(const char* json, nostr_event** event)
 {
     if (!json || !event) {
         return NOSTR_ERR_INVALID_PARAM;
@@ -535,11 +542,21 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 
     cJSON* created_at_json = cJSON_GetObjectItem(root, "created_at");
     if (created_at_json && cJSON_IsNumber(created_at_json)) {
+        if (!json_integer_in_range(created_at_json->valuedouble, -9007199254740991.0, 9007199254740991.0)) {
+            nostr_event_destroy(*event);
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         (*event)->created_at = (int64_t)created_at_json->valuedouble;
     }
 
     cJSON* kind_json = cJSON_GetObjectItem(root, "kind");
     if (kind_json && cJSON_IsNumber(kind_json)) {
+        if (!json_integer_in_range(kind_json->valuedouble, 0, UINT16_MAX)) {
+            nostr_event_destroy(*event);
+            cJSON_Delete(root);
+            return NOSTR_ERR_INVALID_EVENT;
+        }
         (*event)->kind = (uint16_t)kind_json->valueint;
     }
 
@@ -628,6 +645,15 @@ nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
 #endif
 }
 
+nostr_error_t nostr_event_from_json(const char* json, nostr_event** event)
+{
+    nostr_error_t err = event_parse_json(json, event);
+    if (err != NOSTR_OK && event) {
+        *event = NULL;
+    }
+    return err;
+}
+
 nostr_error_t nostr_event_sign(nostr_event* event, const nostr_privkey* privkey)
 {
     if (!event || !privkey) {
-- 
2.43.0


From 6ac98d780fba9f42df522946b485b6e98696f33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 06/11] fix: refuse malformed filter members instead of
 widening the filter

---
 src/relay_filter.c | 104 +++++++++++++++++++++++++++++----------------
 1 file changed, 68 insertions(+), 36 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 6ef4301..4f83a58 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -17,11 +17,14 @@
 
 static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    *out_arr = NULL;
+    *out_count = 0;
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
 
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
@@ -42,19 +45,18 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
     *out_count = 0;
     for (int i = 0; i < count; i++) {
         cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsString(item) && item->valuestring) {
-            (*out_arr)[*out_count] = strdup(item->valuestring);
-            if (!(*out_arr)[*out_count]) {
-                for (size_t j = 0; j < *out_count; j++) {
-                    free((*out_arr)[j]);
-                }
-                free(*out_arr);
-                *out_arr = NULL;
-                *out_count = 0;
-                return NOSTR_RELAY_ERR_MEMORY;
+        bool is_string = cJSON_IsString(item) && item->valuestring;
+        (*out_arr)[*out_count] = is_string ? strdup(item->valuestring) : NULL;
+        if (!(*out_arr)[*out_count]) {
+            for (size_t j = 0; j < *out_count; j++) {
+                free((*out_arr)[j]);
             }
-            (*out_count)++;
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return is_string ? NOSTR_RELAY_ERR_MEMORY : NOSTR_RELAY_ERR_INVALID_JSON;
         }
+        (*out_count)++;
     }
 
     return NOSTR_RELAY_OK;
@@ -62,11 +64,14 @@ static nostr_relay_error_t parse_string_array(cJSON* arr, char*** out_arr, size_
 
 static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t* out_count)
 {
-    if (!arr || !cJSON_IsArray(arr)) {
-        *out_arr = NULL;
-        *out_count = 0;
+    *out_arr = NULL;
+    *out_count = 0;
+    if (!arr) {
         return NOSTR_RELAY_OK;
     }
+    if (!cJSON_IsArray(arr)) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
 
     int count = cJSON_GetArraySize(arr);
     if (count == 0) {
@@ -87,14 +92,32 @@ static nostr_relay_error_t parse_int_array(cJSON* arr, int32_t** out_arr, size_t
     *out_count = 0;
     for (int i = 0; i < count; i++) {
         cJSON* item = cJSON_GetArrayItem(arr, i);
-        if (cJSON_IsNumber(item)) {
-            (*out_arr)[(*out_count)++] = (int32_t)item->valueint;
+        if (!cJSON_IsNumber(item) || item->valuedouble != (double)item->valueint) {
+            free(*out_arr);
+            *out_arr = NULL;
+            *out_count = 0;
+            return NOSTR_RELAY_ERR_INVALID_JSON;
         }
+        (*out_arr)[(*out_count)++] = (int32_t)item->valueint;
     }
 
     return NOSTR_RELAY_OK;
 }
 
+static nostr_relay_error_t parse_timestamp(cJSON* item, int64_t* out)
+{
+    if (!item) {
+        return NOSTR_RELAY_OK;
+    }
+    if (!cJSON_IsNumber(item) ||
+        !(item->valuedouble >= -9007199254740991.0 && item->valuedouble <= 9007199254740991.0) ||
+        item->valuedouble != (double)(int64_t)item->valuedouble) {
+        return NOSTR_RELAY_ERR_INVALID_JSON;
+    }
+    *out = (int64_t)item->valuedouble;
+    return NOSTR_RELAY_OK;
+}
+
 nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_filter_t* filter)
 {
     if (!json || !filter) {
@@ -110,19 +133,24 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
 
     nostr_relay_error_t err;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "ids"), &filter->ids, &filter->ids_count);
+    if (!cJSON_IsObject(root)) {
+        err = NOSTR_RELAY_ERR_INVALID_JSON;
+        goto cleanup;
+    }
+
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "ids"), &filter->ids, &filter->ids_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "authors"), &filter->authors, &filter->authors_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "authors"), &filter->authors, &filter->authors_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_int_array(cJSON_GetObjectItem(root, "kinds"), &filter->kinds, &filter->kinds_count);
+    err = parse_int_array(cJSON_GetObjectItemCaseSensitive(root, "kinds"), &filter->kinds, &filter->kinds_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#e"), &filter->e_tags, &filter->e_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#e"), &filter->e_tags, &filter->e_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    err = parse_string_array(cJSON_GetObjectItem(root, "#p"), &filter->p_tags, &filter->p_tags_count);
+    err = parse_string_array(cJSON_GetObjectItemCaseSensitive(root, "#p"), &filter->p_tags, &filter->p_tags_count);
     if (err != NOSTR_RELAY_OK) goto cleanup;
 
     size_t generic_count = 0;
@@ -167,23 +195,27 @@ nostr_relay_error_t nostr_filter_parse(const char* json, size_t json_len, nostr_
         filter->generic_tags_count = generic_count;
     }
 
-    cJSON* since = cJSON_GetObjectItem(root, "since");
-    if (since && cJSON_IsNumber(since)) {
-        filter->since = (int64_t)since->valuedouble;
-    }
+    err = parse_timestamp(cJSON_GetObjectItemCaseSensitive(root, "since"), &filter->since);
+    if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    cJSON* until = cJSON_GetObjectItem(root, "until");
-    if (until && cJSON_IsNumber(until)) {
-        filter->until = (int64_t)until->valuedouble;
-    }
+    err = parse_timestamp(cJSON_GetObjectItemCaseSensitive(root, "until"), &filter->until);
+    if (err != NOSTR_RELAY_OK) goto cleanup;
 
-    cJSON* limit = cJSON_GetObjectItem(root, "limit");
-    if (limit && cJSON_IsNumber(limit)) {
+    cJSON* limit = cJSON_GetObjectItemCaseSensitive(root, "limit");
+    if (limit) {
+        if (!cJSON_IsNumber(limit)) {
+            err = NOSTR_RELAY_ERR_INVALID_JSON;
+            goto cleanup;
+        }
         filter->limit = limit->valueint;
     }
 
-    cJSON* search = cJSON_GetObjectItem(root, "search");
-    if (search && cJSON_IsString(search) && search->valuestring) {
+    cJSON* search = cJSON_GetObjectItemCaseSensitive(root, "search");
+    if (search) {
+        if (!cJSON_IsString(search) || !search->valuestring) {
+            err = NOSTR_RELAY_ERR_INVALID_JSON;
+            goto cleanup;
+        }
         if (strlen(search->valuestring) > NOSTR_DEFAULT_MAX_CONTENT_LENGTH) {
             err = NOSTR_RELAY_ERR_INVALID_JSON;
             goto cleanup;
-- 
2.43.0


From b47d621053f2eb6b4b970b2d21a75f2dfd8af440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:53 +0000
Subject: [PATCH 07/11] fix: match tag filters against every tag of the event,
 not only the first 256

---
 src/relay_filter.c | 66 ++++++++++++++++++----------------------------
 1 file changed, 26 insertions(+), 40 deletions(-)

diff --git a/src/relay_filter.c b/src/relay_filter.c
index 4f83a58..0b42be8 100644
--- a/src/relay_filter.c
+++ b/src/relay_filter.c
@@ -375,6 +375,23 @@ static bool hex_starts_with(const char* hex, size_t hex_len, const char* prefix)
     return strncmp(hex, prefix, prefix_len) == 0;
 }
 
+static bool event_has_any_tag_value(const nostr_event* event, const char* tag_name,
+                                    char** values, size_t values_count)
+{
+    for (size_t i = 0; event->tags && i < event->tags_count; i++) {
+        const nostr_tag* tag = &event->tags[i];
+        if (tag->count < 2 || !tag->values[0] || !tag->values[1] || strcmp(tag->values[0], tag_name) != 0) {
+            continue;
+        }
+        for (size_t j = 0; j < values_count; j++) {
+            if (strcmp(tag->values[1], values[j]) == 0) {
+                return true;
+            }
+        }
+    }
+    return false;
+}
+
 bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event)
 {
     if (!filter || !event) return false;
@@ -424,54 +441,23 @@ bool nostr_filter_matches(const nostr_filter_t* filter, const nostr_event* event
         return false;
     }
 
-    if (filter->e_tags_count > 0) {
-        bool matched = false;
-        const char* e_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t e_count = nostr_event_get_tag_values(event, "e", e_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->e_tags_count && !matched; i++) {
-            for (size_t j = 0; j < e_count; j++) {
-                if (e_values[j] && strcmp(e_values[j], filter->e_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->e_tags_count > 0 &&
+        !event_has_any_tag_value(event, "e", filter->e_tags, filter->e_tags_count)) {
+        return false;
     }
 
-    if (filter->p_tags_count > 0) {
-        bool matched = false;
-        const char* p_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t p_count = nostr_event_get_tag_values(event, "p", p_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        for (size_t i = 0; i < filter->p_tags_count && !matched; i++) {
-            for (size_t j = 0; j < p_count; j++) {
-                if (p_values[j] && strcmp(p_values[j], filter->p_tags[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
-        }
-        if (!matched) return false;
+    if (filter->p_tags_count > 0 &&
+        !event_has_any_tag_value(event, "p", filter->p_tags, filter->p_tags_count)) {
+        return false;
     }
 
     for (size_t t = 0; t < filter->generic_tags_count; t++) {
         char tag_name[2] = { filter->generic_tags[t].tag_name, '\0' };
 
-        const char* tag_values[NOSTR_MAX_TAG_FILTER_VALUES];
-        size_t tag_count = nostr_event_get_tag_values(event, tag_name, tag_values, NOSTR_MAX_TAG_FILTER_VALUES);
-
-        bool matched = false;
-        for (size_t i = 0; i < filter->generic_tags[t].values_count && !matched; i++) {
-            for (size_t j = 0; j < tag_count; j++) {
-                if (tag_values[j] && strcmp(tag_values[j], filter->generic_tags[t].values[i]) == 0) {
-                    matched = true;
-                    break;
-                }
-            }
+        if (!event_has_any_tag_value(event, tag_name, filter->generic_tags[t].values,
+                                     filter->generic_tags[t].values_count)) {
+            return false;
         }
-        if (!matched) return false;
     }
 
     return true;
-- 
2.43.0


From 268cbcee80c0705ca5fce28e2d0ddbf9538f0039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:03 +0000
Subject: [PATCH 08/11] fix: do not overflow when the allowed clock skew is
 very large

---
 src/relay_protocol.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 8aaab44..3889357 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -110,6 +110,9 @@ bool nostr_validate_subscription_id(const char* sub_id)
 bool nostr_validate_timestamp(int64_t timestamp, int64_t max_future_seconds)
 {
     int64_t now = nostr_timestamp_now();
+    if (now > 0 && max_future_seconds > INT64_MAX - now) {
+        return true;
+    }
     return timestamp <= (now + max_future_seconds);
 }
 
-- 
2.43.0


From 1e0f67ac0ab2050547d4aaa883ff116adfe3e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 09/11] fix: honour json_len when parsing an event

---
 src/relay_protocol.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 3889357..9f32e87 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -293,13 +293,24 @@ bool nostr_event_is_expired_now(const nostr_event* event)
 
 nostr_relay_error_t nostr_event_parse(const char* json, size_t json_len, nostr_event** event)
 {
-    (void)json_len;
-
     if (!json || !event) {
         return NOSTR_RELAY_ERR_INVALID_JSON;
     }
 
-    nostr_error_t err = nostr_event_from_json(json, event);
+    nostr_error_t err;
+    if (json_len > 0) {
+        char* text = malloc(json_len + 1);
+        if (!text) {
+            *event = NULL;
+            return NOSTR_RELAY_ERR_MEMORY;
+        }
+        memcpy(text, json, json_len);
+        text[json_len] = '\0';
+        err = nostr_event_from_json(text, event);
+        free(text);
+    } else {
+        err = nostr_event_from_json(json, event);
+    }
 
     switch (err) {
         case NOSTR_OK:
-- 
2.43.0


From be14bb2674e840c9aca6003562b7d8fe059e2283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:33 +0000
Subject: [PATCH 10/11] fix: authorize address deletions whatever the length of
 the d tag

---
 src/relay_protocol.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/relay_protocol.c b/src/relay_protocol.c
index 9f32e87..74e2965 100644
--- a/src/relay_protocol.c
+++ b/src/relay_protocol.c
@@ -681,15 +681,16 @@ bool nostr_deletion_authorized_address(const nostr_deletion_request_t* request,
         d_tag = "";
     }
 
-    char target_address[256];
-    int written = snprintf(target_address, sizeof(target_address), "%d:%s:%s",
-                          target_event->kind, target_pubkey, d_tag);
-    if (written < 0 || (size_t)written >= sizeof(target_address)) {
+    char target_prefix[80];
+    int written = snprintf(target_prefix, sizeof(target_prefix), "%d:%s:",
+                          target_event->kind, target_pubkey);
+    if (written < 0 || (size_t)written >= sizeof(target_prefix)) {
         return false;
     }
 
     for (size_t i = 0; i < request->addresses_count; i++) {
-        if (strcmp(request->addresses[i], target_address) == 0) {
+        if (strncmp(request->addresses[i], target_prefix, (size_t)written) == 0 &&
+            strcmp(request->addresses[i] + written, d_tag) == 0) {
             return true;
         }
     }
-- 
2.43.0


From 418d356a28b421a531e5f4d33340837c003fe822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:42 +0000
Subject: [PATCH 11/11] fix: fail instead of dropping relay message items when
 a JSON node cannot be allocated

---
 src/relay_message.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/relay_message.c b/src/relay_message.c
index 9a8ff3a..f6d5484 100644
--- a/src/relay_message.c
+++ b/src/relay_message.c
@@ -396,8 +396,10 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         return NOSTR_RELAY_ERR_MEMORY;
     }
 
+    int items = 0;
     switch (msg->type) {
         case NOSTR_RELAY_MSG_EVENT: {
+            items = 3;
             cJSON_AddItemToArray(root, cJSON_CreateString("EVENT"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.event.subscription_id));
 
@@ -421,6 +423,7 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
         }
 
         case NOSTR_RELAY_MSG_OK:
+            items = 4;
             cJSON_AddItemToArray(root, cJSON_CreateString("OK"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.ok.event_id));
             cJSON_AddItemToArray(root, cJSON_CreateBool(msg->data.ok.success));
@@ -428,27 +431,32 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             break;
 
         case NOSTR_RELAY_MSG_EOSE:
+            items = 2;
             cJSON_AddItemToArray(root, cJSON_CreateString("EOSE"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.eose.subscription_id));
             break;
 
         case NOSTR_RELAY_MSG_CLOSED:
+            items = 3;
             cJSON_AddItemToArray(root, cJSON_CreateString("CLOSED"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.subscription_id));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.closed.message));
             break;
 
         case NOSTR_RELAY_MSG_NOTICE:
+            items = 2;
             cJSON_AddItemToArray(root, cJSON_CreateString("NOTICE"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.notice.message));
             break;
 
         case NOSTR_RELAY_MSG_AUTH:
+            items = 2;
             cJSON_AddItemToArray(root, cJSON_CreateString("AUTH"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.auth.challenge));
             break;
 
         case NOSTR_RELAY_MSG_COUNT: {
+            items = 3;
             cJSON_AddItemToArray(root, cJSON_CreateString("COUNT"));
             cJSON_AddItemToArray(root, cJSON_CreateString(msg->data.count.query_id));
             cJSON* count_obj = cJSON_CreateObject();
@@ -456,9 +464,12 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
                 cJSON_Delete(root);
                 return NOSTR_RELAY_ERR_MEMORY;
             }
-            cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count);
-            if (msg->data.count.approximate) {
-                cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True);
+            if (!cJSON_AddNumberToObject(count_obj, "count", (double)msg->data.count.count) ||
+                (msg->data.count.approximate &&
+                 !cJSON_AddBoolToObject(count_obj, "approximate", cJSON_True))) {
+                cJSON_Delete(count_obj);
+                cJSON_Delete(root);
+                return NOSTR_RELAY_ERR_MEMORY;
             }
             cJSON_AddItemToArray(root, count_obj);
             break;
@@ -469,7 +480,10 @@ nostr_relay_error_t nostr_relay_msg_serialize(const nostr_relay_msg_t* msg, char
             return NOSTR_RELAY_ERR_UNKNOWN_MESSAGE_TYPE;
     }
 
-    char* json_str = cJSON_PrintUnformatted(root);
+    char* json_str = NULL;
+    if (cJSON_GetArraySize(root) == items) {
+        json_str = cJSON_PrintUnformatted(root);
+    }
     cJSON_Delete(root);
 
     if (!json_str) {
-- 
2.43.0

