From 6a8729214fbbe696a58513a288fd1f8c974c0b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:37 +0000
Subject: [PATCH 01/37] fix: match '*' inside a permission pattern instead of
 looping forever

---
 utils/str.go | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index fc3aced..2d15492 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -34,32 +34,19 @@ func MatchResource(value, pattern string) bool {
 	vIndex, pIndex := 0, 0
 	vLen, pLen := len(value), len(pattern)
 
-	for pIndex < pLen {
-		if pattern[pIndex] == '*' {
+	// Position of the last '*' and of the value it has to be retried from
+	starIndex, retryIndex := -1, 0
+
+	for pIndex < pLen || vIndex < vLen {
+		if pIndex < pLen && pattern[pIndex] == '*' {
 			// If '*' is the last character in the pattern, it matches everything
 			if pIndex == pLen-1 {
 				return true
 			}
 
-			// Find the next character in pattern after '*'
-			nextChar := pattern[pIndex+1]
-
-			// If the next character is '*', skip it
-			if nextChar == '*' {
-				pIndex++
-				continue
-			}
-
-			// Find the next occurrence of the character after '*' in the value
-			nextIndex := strings.IndexByte(value[vIndex:], nextChar)
-
-			// If the character is not found, no match
-			if nextIndex == -1 {
-				return false
-			}
-
-			// Move the value index to the next occurrence of the character
-			vIndex += nextIndex
+			// First try '*' as empty; it is extended below when the rest does not match
+			starIndex, retryIndex = pIndex, vIndex
+			pIndex++
 		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
 			// If pattern part matches value part or is a parameter, move to the next parts
 			vIndex++
@@ -78,6 +65,10 @@ func MatchResource(value, pattern string) bool {
 				// Move pattern index to the end of the parameter segment
 				pIndex = endIndex
 			}
+		} else if starIndex >= 0 && retryIndex < vLen {
+			// Let the last '*' cover one more character and match the rest again
+			retryIndex++
+			vIndex, pIndex = retryIndex, starIndex+1
 		} else {
 			return false
 		}
-- 
2.43.0


From 94082f0eccfd0752cd821eeb7fb9b79b78416c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:39 +0000
Subject: [PATCH 02/37] fix: a ':param' matches one non-empty path segment and
 never the action

---
 utils/str.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index 2d15492..4652f0b 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -47,7 +47,8 @@ func MatchResource(value, pattern string) bool {
 			// First try '*' as empty; it is extended below when the rest does not match
 			starIndex, retryIndex = pIndex, vIndex
 			pIndex++
-		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') {
+		} else if pIndex < pLen && vIndex < vLen && (pattern[pIndex] == value[vIndex] || pattern[pIndex] == ':') &&
+			!(pattern[pIndex] == ':' && isSegmentEnd(value[vIndex])) {
 			// If pattern part matches value part or is a parameter, move to the next parts
 			vIndex++
 			pIndex++
@@ -55,11 +56,11 @@ func MatchResource(value, pattern string) bool {
 			if pattern[pIndex-1] == ':' {
 				// Find the end of the parameter segment
 				endIndex := pIndex
-				for endIndex < pLen && pattern[endIndex] != '/' {
+				for endIndex < pLen && !isSegmentEnd(pattern[endIndex]) {
 					endIndex++
 				}
 				// Skip the parameter segment in the value
-				for vIndex < vLen && value[vIndex] != '/' {
+				for vIndex < vLen && !isSegmentEnd(value[vIndex]) {
 					vIndex++
 				}
 				// Move pattern index to the end of the parameter segment
@@ -78,6 +79,11 @@ func MatchResource(value, pattern string) bool {
 	return vIndex == vLen && pIndex == pLen
 }
 
+// isSegmentEnd reports whether c ends a path segment: the next segment or the action follows.
+func isSegmentEnd(c byte) bool {
+	return c == '/' || c == ' '
+}
+
 // ToByte converts a string to a byte slice without memory allocation.
 // NOTE: The returned byte slice MUST NOT be modified since it shares the same backing array
 // with the given string.
-- 
2.43.0


From dd04e5e5671ac41c537fcc26d4dda25be7008556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:01 +0000
Subject: [PATCH 03/37] fix: v2 RemovePrincipalRole keeps exactly the
 assignments that do not match

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 3533705..6957169 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -133,13 +133,13 @@ func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
 		return true
 	}
 	j := 0
-	for i, ur := range a.userRoles {
+	for _, ur := range a.userRoles {
 		if matches(ur) {
 			rolesRemoved = true
 			continue
 		}
+		updatedRoles[j] = ur
 		j++
-		updatedRoles[i] = ur
 	}
 	updatedRoles = updatedRoles[:j]
 	if !rolesRemoved {
-- 
2.43.0


From 2cf6ebf200422052e513dd4f985a5e1bbe77a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:02 +0000
Subject: [PATCH 04/37] fix: v2 permission and role resolution no longer share
 one memo table

---
 v2/role.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/v2/role.go b/v2/role.go
index 05b01ba..3a64588 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -63,6 +63,8 @@ type RoleDAG struct {
 	roles    map[string]*Role
 	edges    map[string][]string
 	resolved map[string]map[string]struct{}
+	// resolvedRoles memoizes ResolveChildRoles, as resolved does for ResolvePermissions
+	resolvedRoles map[string]map[string]struct{}
 }
 
 func NewRoleDAG() *RoleDAG {
@@ -70,6 +72,8 @@ func NewRoleDAG() *RoleDAG {
 		roles:    make(map[string]*Role),
 		edges:    make(map[string][]string),
 		resolved: make(map[string]map[string]struct{}),
+
+		resolvedRoles: make(map[string]map[string]struct{}),
 	}
 }
 
@@ -150,7 +154,7 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 // ResolveChildRoles to account for role expiry
 func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
+	if permissions, found := dag.resolvedRoles[roleName]; found {
 		dag.mu.RUnlock()
 		return permissions
 	}
@@ -174,6 +178,6 @@ func (dag *RoleDAG) ResolveChildRoles(roleName string) map[string]struct{} {
 		result[role.Name] = struct{}{}
 		queue = append(queue, dag.edges[current]...)
 	}
-	dag.resolved[roleName] = result
+	dag.resolvedRoles[roleName] = result
 	return result
 }
-- 
2.43.0


From e6f1c5226fe305f7726adeb1e67c1ba7ba040769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:12 +0000
Subject: [PATCH 05/37] fix: v2 resolves roles again after their permissions,
 links or registration change

---
 v2/role.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/v2/role.go b/v2/role.go
index 3a64588..9a041cf 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -3,8 +3,13 @@ package v2
 import (
 	"fmt"
 	"sync"
+	"sync/atomic"
 )
 
+// permissionEpoch counts the changes made to the permissions of any role, so that
+// a RoleDAG can tell whether the permissions it has memoized are still current.
+var permissionEpoch atomic.Uint64
+
 func (p *Permission) String() string {
 	return p.Resource + " " + p.Action
 }
@@ -15,6 +20,7 @@ func (r *Role) AddPermission(permissions ...*Permission) {
 	for _, permission := range permissions {
 		r.Permissions[permission.String()] = struct{}{}
 	}
+	permissionEpoch.Add(1)
 }
 
 func (r *Role) RemovePermission(permissions ...*Permission) {
@@ -23,6 +29,7 @@ func (r *Role) RemovePermission(permissions ...*Permission) {
 	for _, permission := range permissions {
 		delete(r.Permissions, permission.String())
 	}
+	permissionEpoch.Add(1)
 }
 
 func (t *Tenant) AddNamespace(namespace string, isDefault ...bool) {
@@ -65,6 +72,8 @@ type RoleDAG struct {
 	resolved map[string]map[string]struct{}
 	// resolvedRoles memoizes ResolveChildRoles, as resolved does for ResolvePermissions
 	resolvedRoles map[string]map[string]struct{}
+	// resolvedAt is the permissionEpoch for which resolved was filled
+	resolvedAt uint64
 }
 
 func NewRoleDAG() *RoleDAG {
@@ -83,6 +92,8 @@ func (dag *RoleDAG) AddRole(roles ...*Role) {
 	for _, role := range roles {
 		dag.roles[role.Name] = role
 	}
+	clear(dag.resolved)
+	clear(dag.resolvedRoles)
 }
 
 func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
@@ -92,6 +103,8 @@ func (dag *RoleDAG) AddChildRole(parent string, child ...string) error {
 		return err
 	}
 	dag.edges[parent] = append(dag.edges[parent], child...)
+	clear(dag.resolved)
+	clear(dag.resolvedRoles)
 	return nil
 }
 
@@ -121,13 +134,17 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 // ResolvePermissions to account for role expiry
 func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 	dag.mu.RLock()
-	if permissions, found := dag.resolved[roleName]; found {
+	if permissions, found := dag.resolved[roleName]; found && dag.resolvedAt == permissionEpoch.Load() {
 		dag.mu.RUnlock()
 		return permissions
 	}
 	dag.mu.RUnlock()
 	dag.mu.Lock()
 	defer dag.mu.Unlock()
+	if epoch := permissionEpoch.Load(); dag.resolvedAt != epoch {
+		clear(dag.resolved)
+		dag.resolvedAt = epoch
+	}
 	visited := make(map[string]bool)
 	queue := []string{roleName}
 	result := make(map[string]struct{})
-- 
2.43.0


From 9b5bdedcde7722e4012a4e57192e09d92c9c7dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:14 +0000
Subject: [PATCH 06/37] fix: v2 AddChildRole accepts diamonds and repeated
 links, which are not cycles

---
 v2/role.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/role.go b/v2/role.go
index 9a041cf..098f0d5 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -113,7 +113,7 @@ func (dag *RoleDAG) checkCircularDependency(parent string, children ...string) e
 	var dfs func(string) bool
 	dfs = func(role string) bool {
 		if visited[role] {
-			return true
+			return role == parent
 		}
 		visited[role] = true
 		for _, child := range dag.edges[role] {
-- 
2.43.0


From 21442a1f52f77787dcf9dfae2135c334fccd6c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:15 +0000
Subject: [PATCH 07/37] fix: v2 an expired assignment no longer gives reach
 into child tenants

---
 v2/v2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 6957169..d275b43 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -224,7 +224,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
@@ -280,7 +280,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 			}
 		}
 		for _, userRole := range a.userRoles {
-			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant {
+			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
 				for _, child := range current.ChildTenants {
 					if err := traverse(child); err != nil {
 						return err
-- 
2.43.0


From 8806820315c39204c53580104506ffb0eafe262d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:16 +0000
Subject: [PATCH 08/37] fix: v2 SetExpiryDuration reports an unparsable
 duration

---
 v2/v2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v2/v2.go b/v2/v2.go
index d275b43..18e42c3 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -43,7 +43,7 @@ func (pr *PrincipalRole) SetExpiryDuration(dur any) error {
 	case string:
 		duration, err = time.ParseDuration(dur)
 		if err != nil {
-			return nil
+			return err
 		}
 	case time.Duration:
 		duration = dur
-- 
2.43.0


From 3178dc6fa4aa67eeb83d0a79d5e2178f9f77f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:18 +0000
Subject: [PATCH 09/37] fix: v2 a decision no longer reads a pooled set after
 returning it to the pool

---
 v2/v2.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 18e42c3..5562387 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"log/slog"
+	"maps"
 	"slices"
 	"sync"
 	"time"
@@ -238,10 +239,10 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		return nil, err
 	}
 	if len(scopedPermissions) > 0 {
-		return scopedPermissions, nil
+		return maps.Clone(scopedPermissions), nil
 	}
 	if len(globalPermissions) > 0 {
-		return globalPermissions, nil
+		return maps.Clone(globalPermissions), nil
 	}
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
@@ -294,7 +295,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 		return nil, err
 	}
 	if len(scopedRoles) > 0 {
-		return scopedRoles, nil
+		return maps.Clone(scopedRoles), nil
 	}
 	return nil, fmt.Errorf("no roleDAG or permissions found")
 }
-- 
2.43.0


From 4d2adaaad79d26a44582aa6cdc2055b85613e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:41 +0000
Subject: [PATCH 10/37] fix: v2 decisions hold the engine lock that its changes
 take

---
 v2/v2.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/v2/v2.go b/v2/v2.go
index 5562387..37b5024 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -97,6 +97,8 @@ func NewAuthorizer(auditLog ...*slog.Logger) *Authorizer {
 }
 
 func (a *Authorizer) SetDefaultTenant(tenant string) {
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.defaultTenant = tenant
 }
 
@@ -113,6 +115,8 @@ func (a *Authorizer) AddPrincipalRole(userRole ...*PrincipalRole) {
 }
 
 func (a *Authorizer) RemovePrincipalRole(target PrincipalRole) error {
+	a.m.Lock()
+	defer a.m.Unlock()
 	updatedRoles := make([]*PrincipalRole, len(a.userRoles))
 	var rolesRemoved bool
 	matches := func(pr *PrincipalRole) bool {
@@ -176,8 +180,11 @@ var (
 )
 
 func (a *Authorizer) GetDefaultTenant() (*Tenant, bool) {
-	if a.defaultTenant != "" {
-		return a.GetTenant(a.defaultTenant)
+	a.m.RLock()
+	defaultTenant := a.defaultTenant
+	a.m.RUnlock()
+	if defaultTenant != "" {
+		return a.GetTenant(defaultTenant)
 	}
 	return nil, false
 }
@@ -354,6 +361,8 @@ func (a *Authorizer) findTargetTenants(request Request) ([]*Tenant, bool) {
 }
 
 func (a *Authorizer) Can(request Request, roles ...string) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
@@ -397,6 +406,8 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 }
 
 func (a *Authorizer) Authorize(request Request) bool {
+	a.m.RLock()
+	defer a.m.RUnlock()
 	targetTenants, isValidTenant := a.findTargetTenants(request)
 	if !isValidTenant {
 		a.Log(slog.LevelWarn, request, "Failed authorization due to invalid tenant")
-- 
2.43.0


From 662006246b8911f2764392f1efb290c5e900500a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:43 +0000
Subject: [PATCH 11/37] fix: v2 decisions read tenants under the lock that
 their changes take

---
 v2/init.go |  2 +-
 v2/role.go |  8 ++++++++
 v2/v2.go   | 14 ++++++++++++--
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 19fbe51..ad1d5d4 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -28,7 +28,7 @@ func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
 	a.m.Lock()
 	defer a.m.Unlock()
 	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.ChildTenants {
+	for _, child := range tenant.children() {
 		a.parentCache[child.ID] = tenant
 	}
 	return tenant
diff --git a/v2/role.go b/v2/role.go
index 098f0d5..c07f571 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -2,6 +2,7 @@ package v2
 
 import (
 	"fmt"
+	"maps"
 	"sync"
 	"sync/atomic"
 )
@@ -65,6 +66,13 @@ func (t *Tenant) AddChildTenant(tenants ...*Tenant) {
 	}
 }
 
+// children returns the child tenants at this moment.
+func (t *Tenant) children() map[string]*Tenant {
+	t.m.RLock()
+	defer t.m.RUnlock()
+	return maps.Clone(t.ChildTenants)
+}
+
 type RoleDAG struct {
 	mu       sync.RWMutex
 	roles    map[string]*Role
diff --git a/v2/v2.go b/v2/v2.go
index 37b5024..c6e32b7 100644
--- a/v2/v2.go
+++ b/v2/v2.go
@@ -233,7 +233,7 @@ func (a *Authorizer) resolvePrincipalPermissions(userID, tenantID, namespace, sc
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -289,7 +289,7 @@ func (a *Authorizer) resolvePrincipalRoles(userID, tenantID, namespace string) (
 		}
 		for _, userRole := range a.userRoles {
 			if userRole.Principal == userID && userRole.Tenant == current.ID && userRole.ManageChildTenant && !userRole.IsExpired() {
-				for _, child := range current.ChildTenants {
+				for _, child := range current.children() {
 					if err := traverse(child); err != nil {
 						return err
 					}
@@ -370,6 +370,7 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 	}
 	for _, tenant := range targetTenants {
 		namespace := request.Namespace
+		tenant.m.RLock()
 		if namespace == "" {
 			if tenant.DefaultNS != "" {
 				namespace = tenant.DefaultNS
@@ -379,16 +380,20 @@ func (a *Authorizer) Can(request Request, roles ...string) bool {
 					break
 				}
 			} else {
+				tenant.m.RUnlock()
 				continue
 			}
 		}
 		ns, exists := tenant.Namespaces[namespace]
 		if !exists {
+			tenant.m.RUnlock()
 			continue
 		}
 		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+			tenant.m.RUnlock()
 			continue
 		}
+		tenant.m.RUnlock()
 		resolvedRoles, err := a.resolvePrincipalRoles(request.Principal, tenant.ID, namespace)
 		if err != nil {
 			a.Log(slog.LevelWarn, request, "Failed to resolve roles for authorization")
@@ -415,6 +420,7 @@ func (a *Authorizer) Authorize(request Request) bool {
 	}
 	for _, tenant := range targetTenants {
 		namespace := request.Namespace
+		tenant.m.RLock()
 		if namespace == "" {
 			if tenant.DefaultNS != "" {
 				namespace = tenant.DefaultNS
@@ -424,16 +430,20 @@ func (a *Authorizer) Authorize(request Request) bool {
 					break
 				}
 			} else {
+				tenant.m.RUnlock()
 				continue
 			}
 		}
 		ns, exists := tenant.Namespaces[namespace]
 		if !exists {
+			tenant.m.RUnlock()
 			continue
 		}
 		if request.Scope != "" && !a.isScopeValidForNamespace(ns, request.Scope) {
+			tenant.m.RUnlock()
 			continue
 		}
+		tenant.m.RUnlock()
 		permissions, err := a.resolvePrincipalPermissions(request.Principal, tenant.ID, namespace, request.Scope)
 		if err != nil {
 			a.Log(slog.LevelWarn, request, "Failed to resolve permissions for authorization")
-- 
2.43.0


From a1fa16b4336613a3489b85718e7f9c949766cb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:44 +0000
Subject: [PATCH 12/37] fix: v2 role permissions and the role registry are read
 under their locks

---
 v2/init.go | 2 ++
 v2/role.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/v2/init.go b/v2/init.go
index ad1d5d4..df7f1c0 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -10,6 +10,8 @@ func (a *Authorizer) AddRole(role *Role) *Role {
 }
 
 func (a *Authorizer) GetRole(val string) (*Role, bool) {
+	a.roleDAG.mu.RLock()
+	defer a.roleDAG.mu.RUnlock()
 	role, ok := a.roleDAG.roles[val]
 	return role, ok
 }
diff --git a/v2/role.go b/v2/role.go
index c07f571..4ae6333 100644
--- a/v2/role.go
+++ b/v2/role.go
@@ -167,9 +167,11 @@ func (dag *RoleDAG) ResolvePermissions(roleName string) map[string]struct{} {
 		if !exists {
 			continue
 		}
+		role.m.RLock()
 		for perm := range role.Permissions {
 			result[perm] = struct{}{}
 		}
+		role.m.RUnlock()
 		queue = append(queue, dag.edges[current]...)
 	}
 	dag.resolved[roleName] = result
-- 
2.43.0


From 78dcd72c89777fd6206b675eb049031154bc1d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:23 +0000
Subject: [PATCH 13/37] fix: the record store keeps records with different
 blank positions apart

---
 trie/trie.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index 6cbe2aa..eb4da9f 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -10,6 +10,10 @@ type SearchFunc[T DataProps] func(filter *T, row *T) bool
 
 type KeyExtractor[T DataProps] func(data *T) []any
 
+// blank is the key of a position without value, so that records that differ
+// only in which positions are blank are kept apart.
+type blank struct{}
+
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
 	isEnd bool
@@ -69,7 +73,7 @@ func (t *Trie[T]) Insert(data *T) {
 
 	for _, key := range keys {
 		if key == nil {
-			continue
+			key = blank{}
 		}
 		child, _ := node.addChild(key)
 		node = child
-- 
2.43.0


From f3bd69a9ed8996db7ce49a9d578d4bf244a9342f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:24 +0000
Subject: [PATCH 14/37] fix: concurrent inserts into the record store are
 neither lost nor seen half done

---
 trie/trie.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/trie/trie.go b/trie/trie.go
index eb4da9f..fc98b04 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -1,6 +1,8 @@
 package trie
 
 import (
+	"sync/atomic"
+
 	maps "github.com/oarkflow/xsync"
 )
 
@@ -16,8 +18,7 @@ type blank struct{}
 
 type Node[T DataProps] struct {
 	child maps.IMap[any, *Node[T]]
-	isEnd bool
-	data  *T
+	data  atomic.Pointer[T]
 }
 
 func NewNode[T DataProps]() *Node[T] {
@@ -31,9 +32,7 @@ func (node *Node[T]) addChild(key any) (*Node[T], bool) {
 	if n, exists := node.child.Get(key); exists {
 		return n, true
 	}
-	n := NewNode[T]()
-	node.child.Set(key, n)
-	return n, false
+	return node.child.GetOrSet(key, NewNode[T]())
 }
 
 func (node *Node[T]) getChild(key any) (*Node[T], bool) {
@@ -79,8 +78,7 @@ func (t *Trie[T]) Insert(data *T) {
 		node = child
 	}
 
-	node.isEnd = true
-	node.data = data
+	node.data.Store(data)
 }
 
 func (t *Trie[T]) First(filter *T) *T {
@@ -113,14 +111,14 @@ func (t *Trie[T]) search(filter *T, callback SearchFunc[T], stopAfterFirst ...bo
 	var dfs func(node *Node[T]) bool
 	resultCount := 0
 	dfs = func(node *Node[T]) bool {
-		if node.isEnd && callback(filter, node.data) {
+		if data := node.data.Load(); data != nil && callback(filter, data) {
 			resultCount++
 			if len(results) == cap(results) {
 				newResults := make([]*T, len(results), 2*cap(results))
 				copy(newResults, results)
 				results = newResults
 			}
-			results = append(results, node.data)
+			results = append(results, data)
 			if stop {
 				return true
 			}
-- 
2.43.0


From 9cfa5b17c9c089061d06ee491234b1854bcd2cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 15/37] fix: concurrent registrations of one id agree on a
 single entry

---
 activity.go       | 4 ++--
 activity_group.go | 4 ++--
 namespace.go      | 4 ++--
 permission.go     | 4 ++--
 principal.go      | 4 ++--
 scope.go          | 4 ++--
 tenant.go         | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/activity.go b/activity.go
index 4766802..7d830ab 100644
--- a/activity.go
+++ b/activity.go
@@ -10,8 +10,8 @@ func (u *RoleManager) AddAttribute(attr *Attribute) *Attribute {
 	if d, ok := u.attributes.Get(attr.String()); ok {
 		return d
 	}
-	u.attributes.Set(attr.String(), attr)
-	return attr
+	registered, _ := u.attributes.GetOrSet(attr.String(), attr)
+	return registered
 }
 
 func (u *RoleManager) AddAttributes(attrs ...*Attribute) {
diff --git a/activity_group.go b/activity_group.go
index 590872b..9bd5531 100644
--- a/activity_group.go
+++ b/activity_group.go
@@ -14,8 +14,8 @@ func (u *RoleManager) AddAttributeGroup(attr *AttributeGroup) *AttributeGroup {
 	if d, ok := u.attributeGroups.Get(attr.id); ok {
 		return d
 	}
-	u.attributeGroups.Set(attr.id, attr)
-	return attr
+	registered, _ := u.attributeGroups.GetOrSet(attr.id, attr)
+	return registered
 }
 
 func (u *RoleManager) AddAttributeGroups(attrs ...*AttributeGroup) {
diff --git a/namespace.go b/namespace.go
index eebc1e5..2699e44 100644
--- a/namespace.go
+++ b/namespace.go
@@ -18,8 +18,8 @@ func (u *RoleManager) AddNamespace(data *Namespace) *Namespace {
 	if d, ok := u.namespaces.Get(data.id); ok {
 		return d
 	}
-	u.namespaces.Set(data.id, data)
-	return data
+	registered, _ := u.namespaces.GetOrSet(data.id, data)
+	return registered
 }
 
 func (u *RoleManager) AddNamespaces(nms ...*Namespace) {
diff --git a/permission.go b/permission.go
index 10c70dd..bd3a0a5 100644
--- a/permission.go
+++ b/permission.go
@@ -59,8 +59,8 @@ func (u *RoleManager) AddRole(role *Role) *Role {
 	if r, exists := u.roles.Get(role.id); exists {
 		return r
 	}
-	u.roles.Set(role.id, role)
-	return role
+	registered, _ := u.roles.GetOrSet(role.id, role)
+	return registered
 }
 
 func (u *RoleManager) AddRoles(roles ...*Role) {
diff --git a/principal.go b/principal.go
index e92ef05..d33ae4e 100644
--- a/principal.go
+++ b/principal.go
@@ -13,8 +13,8 @@ func (u *RoleManager) AddPrincipal(data *Principal) *Principal {
 	if d, ok := u.principals.Get(data.id); ok {
 		return d
 	}
-	u.principals.Set(data.id, data)
-	return data
+	registered, _ := u.principals.GetOrSet(data.id, data)
+	return registered
 }
 
 func (u *RoleManager) AddPrincipals(principals ...*Principal) {
diff --git a/scope.go b/scope.go
index 2072bc4..76bebb2 100644
--- a/scope.go
+++ b/scope.go
@@ -18,8 +18,8 @@ func (u *RoleManager) AddScope(data *Scope) *Scope {
 	if d, ok := u.scopes.Get(data.id); ok {
 		return d
 	}
-	u.scopes.Set(data.id, data)
-	return data
+	registered, _ := u.scopes.GetOrSet(data.id, data)
+	return registered
 }
 
 func (u *RoleManager) AddScopes(scopes ...*Scope) {
diff --git a/tenant.go b/tenant.go
index 6ff7ad6..645642b 100644
--- a/tenant.go
+++ b/tenant.go
@@ -145,8 +145,8 @@ func (u *RoleManager) AddTenant(data *Tenant) *Tenant {
 	if d, ok := u.tenants.Get(data.id); ok {
 		return d
 	}
-	u.tenants.Set(data.id, data)
-	return data
+	registered, _ := u.tenants.GetOrSet(data.id, data)
+	return registered
 }
 
 func (u *RoleManager) AddTenants(tenants ...*Tenant) {
-- 
2.43.0


From 353c9b8009a42d5fb4e5b42d6276b6eea593ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:45 +0000
Subject: [PATCH 16/37] fix: concurrent first permissions in a group of a role
 are not lost

---
 role.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/role.go b/role.go
index 7f3f8f2..e386992 100644
--- a/role.go
+++ b/role.go
@@ -121,10 +121,10 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 	}
 	resourceGroupAttributes, exists := r.permissions.Get(resourceGroup)
 	if !exists || resourceGroupAttributes == nil {
-		resourceGroupAttributes = &AttributeGroup{
+		resourceGroupAttributes, _ = r.permissions.GetOrSet(resourceGroup, &AttributeGroup{
 			id:          resourceGroup,
 			permissions: maps.NewMap[string, *Attribute](),
-		}
+		})
 	}
 	perm := resourceGroupAttributes.permissions
 	for _, permission := range permissions {
@@ -132,7 +132,6 @@ func (r *Role) AddPermission(resourceGroup string, permissions ...*Attribute) er
 			perm.Set(permission.String(), permission)
 		}
 	}
-	r.permissions.Set(resourceGroup, resourceGroupAttributes)
 	return nil
 }
 
-- 
2.43.0


From 3383d3f45fb9377225c2946fd738803834ca6a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:12 +0000
Subject: [PATCH 17/37] fix: a role without own permissions in a group still
 inherits those of its descendants

---
 role.go    | 3 ++-
 v1/role.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/role.go b/role.go
index e386992..8cc6e37 100644
--- a/role.go
+++ b/role.go
@@ -57,7 +57,8 @@ func (r *Role) Unlock() {
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
-		return false
+		// Nothing of its own in the group, descendants may still have it
+		resourceGroupPermissions = NewAttributeGroup(resourceGroup)
 	}
 	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
 		return true
diff --git a/v1/role.go b/v1/role.go
index b4ab22a..0c8058a 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -56,7 +56,8 @@ func (r *Role) Unlock() {
 func (r *Role) Has(resourceGroup, permissionName string, allowedDescendants ...string) bool {
 	resourceGroupPermissions, ok := r.permissions.Get(resourceGroup)
 	if !ok || resourceGroupPermissions == nil {
-		return false
+		// Nothing of its own in the group, descendants may still have it
+		resourceGroupPermissions = NewAttributeGroup(resourceGroup)
 	}
 	if _, ok := resourceGroupPermissions.permissions.Get(permissionName); ok {
 		return true
-- 
2.43.0


From 1f040499eb3094da4ac65bf4084238660f0c8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:13 +0000
Subject: [PATCH 18/37] fix: a role or tenant cannot be made its own descendant

---
 role.go      |  5 +++++
 tenant.go    | 13 +++++++++++++
 v1/role.go   |  5 +++++
 v1/tenant.go |  8 ++++++++
 4 files changed, 31 insertions(+)

diff --git a/role.go b/role.go
index 8cc6e37..9a50837 100644
--- a/role.go
+++ b/role.go
@@ -107,6 +107,11 @@ func (r *Role) AddDescendant(descendants ...*Role) error {
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
+	for _, descendant := range descendants {
+		if descendant == r || slices.Contains(descendant.GetDescendantRoles(), r) {
+			return errors.New("role cannot be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := r.descendants.Get(descendant.id); !ok {
 			r.descendants.Set(descendant.id, descendant)
diff --git a/tenant.go b/tenant.go
index 645642b..e30bc67 100644
--- a/tenant.go
+++ b/tenant.go
@@ -37,7 +37,20 @@ func (c *Tenant) GetDescendants() (data []any) {
 	return
 }
 
+func (c *Tenant) hasDescendant(tenant *Tenant) (found bool) {
+	c.descendants.ForEach(func(_ string, t *Tenant) bool {
+		found = t == tenant || t.hasDescendant(tenant)
+		return !found
+	})
+	return
+}
+
 func (c *Tenant) AddDescendant(descendants ...*Tenant) error {
+	for _, descendant := range descendants {
+		if descendant == c || descendant.hasDescendant(c) {
+			return errors.New("tenant cannot be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
diff --git a/v1/role.go b/v1/role.go
index 0c8058a..45fb415 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -106,6 +106,11 @@ func (r *Role) AddDescendent(descendants ...*Role) error {
 	if r.lock {
 		return errors.New("changes not allowed")
 	}
+	for _, descendant := range descendants {
+		if descendant == r || slices.Contains(descendant.GetDescendantRoles(), r) {
+			return errors.New("role cannot be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := r.descendants.Get(descendant.id); !ok {
 			r.descendants.Set(descendant.id, descendant)
diff --git a/v1/tenant.go b/v1/tenant.go
index 56e345d..2f43430 100644
--- a/v1/tenant.go
+++ b/v1/tenant.go
@@ -1,6 +1,9 @@
 package v1
 
 import (
+	"errors"
+	"slices"
+
 	"github.com/oarkflow/maps"
 )
 
@@ -30,6 +33,11 @@ func (c *Tenant) GetDescendantTenants() []*Tenant {
 
 // AddDescendent adds a new permission to the role
 func (c *Tenant) AddDescendent(descendants ...*Tenant) error {
+	for _, descendant := range descendants {
+		if descendant == c || slices.Contains(descendant.GetDescendantTenants(), c) {
+			return errors.New("tenant cannot be its own descendant")
+		}
+	}
 	for _, descendant := range descendants {
 		if _, ok := c.descendants.Get(descendant.id); !ok {
 			c.descendants.Set(descendant.id, descendant)
-- 
2.43.0


From dfa9f8cbe258841c42a922b16feb639a94c17c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:15 +0000
Subject: [PATCH 19/37] fix: a permission group given to a role is no longer
 shared with other roles

---
 role.go    | 8 +++++++-
 v1/role.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/role.go b/role.go
index 9a50837..9b357ad 100644
--- a/role.go
+++ b/role.go
@@ -146,7 +146,13 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// Keep an own copy, so that later changes of the group or the role stay apart
+		own := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(_ string, attr *Attribute) bool {
+			own.AddAttributes(attr)
+			return true
+		})
+		r.permissions.Set(resourceGroup.id, own)
 	}
 	return nil
 }
diff --git a/v1/role.go b/v1/role.go
index 45fb415..6782ceb 100644
--- a/v1/role.go
+++ b/v1/role.go
@@ -146,7 +146,13 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 		return errors.New("changes not allowed")
 	}
 	if _, ok := r.permissions.Get(resourceGroup.id); !ok {
-		r.permissions.Set(resourceGroup.id, resourceGroup)
+		// Keep an own copy, so that later changes of the group or the role stay apart
+		own := NewAttributeGroup(resourceGroup.id)
+		resourceGroup.permissions.ForEach(func(_ string, attr *Attribute) bool {
+			own.AddAttributes(attr)
+			return true
+		})
+		r.permissions.Set(resourceGroup.id, own)
 	}
 	return nil
 }
-- 
2.43.0


From 92e965b1ec30576de487cd454c166eee82af40fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:07 +0000
Subject: [PATCH 20/37] fix: role queries for a principal no longer return
 roles of other principals or tenants

---
 filters.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/filters.go b/filters.go
index 3b79b4d..014fe36 100644
--- a/filters.go
+++ b/filters.go
@@ -108,24 +108,21 @@ func filterRoleForPrincipalByTenantNamespaceAndScope(filter *Data, row *Data) bo
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchNamespace(row, filter) && MatchPrincipal(row, filter)) ||
-		(MatchScope(row, filter) && MatchPrincipal(row, filter))
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterRoleForPrincipalByTenantAndNamespace(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Namespace) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) ||
-		MatchNamespace(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterRoleForPrincipalByTenantAndScope(filter *Data, row *Data) bool {
 	if utils.IsNil(filter.Tenant) && utils.IsNil(filter.Principal) && utils.IsNil(filter.Scope) || utils.IsNil(row.Role) {
 		return false
 	}
-	return (MatchTenant(row, filter) && MatchPrincipal(row, filter)) || MatchScope(row, filter)
+	return MatchTenant(row, filter) && MatchPrincipal(row, filter)
 }
 
 func filterNamespaceForPrincipalByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 363eced960e7f54897b000960a8b8add30946966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:08 +0000
Subject: [PATCH 21/37] fix: reachable tenants follow assignments and hierarchy
 made after the first question

---
 query.go        |  5 -----
 role_manager.go | 10 +---------
 2 files changed, 1 insertion(+), 14 deletions(-)

diff --git a/query.go b/query.go
index 7f6b636..0c4b459 100644
--- a/query.go
+++ b/query.go
@@ -37,10 +37,6 @@ func (u *RoleManager) GetDescendantTenant(desc any) []any {
 }
 
 func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{} {
-	principalTenant, exists := u.principalCache.Get(principalID)
-	if exists {
-		return principalTenant
-	}
 	tenantPrincipal := u.search(Data{Principal: principalID}, filterTenantsByPrincipal)
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
@@ -57,7 +53,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 			}
 		}
 	}
-	u.principalCache.Set(principalID, existingTenant)
 	return existingTenant
 }
 
diff --git a/role_manager.go b/role_manager.go
index 9c7353d..754b1e1 100644
--- a/role_manager.go
+++ b/role_manager.go
@@ -18,8 +18,6 @@ type RoleManager struct {
 	attributes      maps.IMap[string, *Attribute]
 	attributeGroups maps.IMap[string, *AttributeGroup]
 	trie            *trie.Trie[Data]
-	hierarchy       maps.IMap[string, []any]
-	principalCache  maps.IMap[string, map[string]struct{}]
 }
 
 func New() *RoleManager {
@@ -32,8 +30,6 @@ func New() *RoleManager {
 		attributes:      maps.NewMap[string, *Attribute](),
 		attributeGroups: maps.NewMap[string, *AttributeGroup](),
 		trie:            trie.New[Data](FilterFunc, DataKeyExtractor),
-		hierarchy:       maps.NewMap[string, []any](),
-		principalCache:  maps.NewMap[string, map[string]struct{}](),
 	}
 }
 
@@ -122,16 +118,12 @@ func (u *RoleManager) TotalScopes() int {
 }
 
 func (u *RoleManager) TenantChildren(t string) []any {
-	if hierarchy, exists := u.hierarchy.Get(t); exists {
-		return hierarchy
-	}
 	tenant, exists := u.GetTenant(t)
 	if !exists {
 		return nil
 	}
 	hierarchy := tenant.GetDescendants()
-	u.hierarchy.Set(t, utils.Compact(hierarchy))
-	return hierarchy
+	return utils.Compact(hierarchy)
 }
 
 func (u *RoleManager) TotalTenants() int {
-- 
2.43.0


From 79d9fece4b72e2bd627ff890c6074a66b9013726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:10 +0000
Subject: [PATCH 22/37] fix: the right to manage descendants counts whichever
 assignment is found first

---
 query.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/query.go b/query.go
index 0c4b459..1ddae40 100644
--- a/query.go
+++ b/query.go
@@ -41,9 +41,6 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	existingTenant := make(map[string]struct{}, 0)
 	for _, rs := range tenantPrincipal {
 		tenantID := rs.Tenant.(string)
-		if _, alreadyProcessed := existingTenant[tenantID]; alreadyProcessed {
-			continue
-		}
 		existingTenant[tenantID] = struct{}{}
 		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
 			for _, desc := range u.TenantChildren(tenantID) {
-- 
2.43.0


From 5f647204e4fda2821228d7ef969c41ce1b3ecae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:11 +0000
Subject: [PATCH 23/37] fix: naming only a group or only an activity is no
 longer treated as naming none

---
 authorize.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorize.go b/authorize.go
index 9b79c4e..1fcfae9 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,7 +22,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
-	noActivity := !(svr.activityGroup != nil && svr.activity != nil)
+	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
 	tsFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope != nil
-- 
2.43.0


From 7d948178c46ac92acf5818ed6c28bf785108cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:13 +0000
Subject: [PATCH 24/37] fix: a tenant is only opened by assignments in it or in
 a managed ancestor

---
 authorize.go | 11 +++++++++++
 query.go     | 14 ++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/authorize.go b/authorize.go
index 1fcfae9..aceb5fb 100644
--- a/authorize.go
+++ b/authorize.go
@@ -22,6 +22,11 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if !u.validateResources(svr) {
 		return false
 	}
+	if svr.tenant != nil {
+		if _, reachable := userRoles[svr.tenant.(string)]; !reachable {
+			return false
+		}
+	}
 	noActivity := svr.activityGroup == nil && svr.activity == nil
 	tFlagProvided := svr.tenant != nil && svr.namespace == nil && svr.scope == nil
 	tnFlagProvided := svr.tenant != nil && svr.namespace != nil && svr.scope == nil
@@ -31,10 +36,16 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 	if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 		return true
 	}
+	requested := svr.tenant
+	managed := u.getManagedTenants(principalID)
 	for tenant := range userRoles {
 		if svr.tenant == tenant && svr.tenant != nil {
 			continue
 		}
+		// Only a managed ancestor of the requested tenant can stand in for it
+		if _, ok := managed[tenant]; !ok || !utils.Contains(u.TenantChildren(tenant), requested) {
+			continue
+		}
 		svr.tenant = tenant
 		if u.authorize(noActivity, principalID, svr, tFlagProvided, tnFlagProvided, tsFlagProvided, tnsFlagProvided, nsFlagProvided) {
 			return true
diff --git a/query.go b/query.go
index 1ddae40..6045a5a 100644
--- a/query.go
+++ b/query.go
@@ -53,6 +53,20 @@ func (u *RoleManager) GetImplicitTenants(principalID string) map[string]struct{}
 	return existingTenant
 }
 
+// getManagedTenants returns the tenants in whose descendants the principal may act.
+func (u *RoleManager) getManagedTenants(principalID string) map[string]struct{} {
+	managed := make(map[string]struct{})
+	for _, rs := range u.search(Data{Principal: principalID}, filterTenantsByPrincipal) {
+		if canManage, ok := rs.ManageDescendants.(bool); ok && canManage {
+			managed[rs.Tenant.(string)] = struct{}{}
+			for _, desc := range u.TenantChildren(rs.Tenant.(string)) {
+				managed[desc.(string)] = struct{}{}
+			}
+		}
+	}
+	return managed
+}
+
 func (u *RoleManager) GetScopesByPrincipal(principalID any) (data []*Data) {
 	results := u.search(Data{Principal: principalID}, filterScopeByPrincipal)
 	return results
-- 
2.43.0


From 0e70bb55e12d18a5243eabceb3a22cd8b695b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:20 +0000
Subject: [PATCH 25/37] fix: the roles of a tenant are listed, so a tenant-wide
 activity can be granted

---
 filters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filters.go b/filters.go
index 014fe36..7e7102a 100644
--- a/filters.go
+++ b/filters.go
@@ -62,7 +62,7 @@ func filterScopeByPrincipal(filter *Data, row *Data) bool {
 }
 
 func filterRoleByTenant(filter *Data, row *Data) bool {
-	return MatchTenant(row, filter) && MatchRole(row, filter)
+	return MatchTenant(row, filter) && !utils.IsNil(row.Role)
 }
 
 func filterNamespaceByTenant(filter *Data, row *Data) bool {
-- 
2.43.0


From 43bdc9d445f40d0a1a965438fcb47be8e98a5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:21 +0000
Subject: [PATCH 26/37] fix: v1 assignments keep ids that contain the separator

---
 v1/role_manager.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 3a9a260..9fe0bd8 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -271,8 +271,17 @@ func getScopeID(n *Scope) string {
 	return n.ID()
 }
 
+// ids may contain the separator of the encoded assignments
+var (
+	idEscaper   = strings.NewReplacer("%", "%25", "_", "%5F")
+	idUnescaper = strings.NewReplacer("%25", "%", "%5F", "_")
+)
+
 func getTenantPrincipals(hash string) TenantPrincipal {
 	parts := strings.Split(hash, "_")
+	for i := range parts {
+		parts[i] = idUnescaper.Replace(parts[i])
+	}
 	m := false
 	if parts[5] == "true" {
 		m = true
@@ -292,7 +301,8 @@ func (u *RoleManager) AddPrincipalRole(principalID string, roleID string, tenant
 	if len(canManageDescendants) > 0 {
 		manageDescendants = canManageDescendants[0]
 	}
-	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", principalID, roleID, tenant.ID(), getNamespaceID(namespace), getScopeID(scope), manageDescendants)
+	esc := idEscaper.Replace
+	h := fmt.Sprintf("%s_%s_%s_%s_%s_%v", esc(principalID), esc(roleID), esc(tenant.ID()), esc(getNamespaceID(namespace)), esc(getScopeID(scope)), manageDescendants)
 	if _, exists := u.tenantPrincipals[h]; !exists {
 		u.tenantPrincipals[h] = struct{}{}
 	}
-- 
2.43.0


From c853df7a5a70f3bbd8505ad2470af81fd1ec3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:22 +0000
Subject: [PATCH 27/37] fix: v1 lists each tenant of a principal once

---
 v1/role_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 9fe0bd8..140b51b 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -315,6 +315,7 @@ func (u *RoleManager) GetTenantsForPrincipal(principalID string) (tenants []stri
 			tenants = append(tenants, unmarshalled.TenantID)
 		}
 	}
+	slices.Sort(tenants)
 	tenants = slices.Compact(tenants)
 	return
 }
-- 
2.43.0


From db6195df661ce62fd65618ae9fe81d6e82b72336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:23 +0000
Subject: [PATCH 28/37] fix: v1 implicit roles of a principal leave out other
 principals

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 140b51b..8f074e5 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -352,7 +352,7 @@ func (u *RoleManager) GetImplicitPrincipalRoles(tenantID, principalID string) (d
 			tenant.descendants.ForEach(func(id string, _ *Tenant) bool {
 				for tenantPrincipal := range u.tenantPrincipals {
 					unmarshalled := getTenantPrincipals(tenantPrincipal)
-					if unmarshalled.TenantID == id {
+					if unmarshalled.PrincipalID == principalID && unmarshalled.TenantID == id {
 						data = append(data, unmarshalled)
 					}
 				}
-- 
2.43.0


From d1f7efe7ed6dbd155db818e1b6213837b645c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:24 +0000
Subject: [PATCH 29/37] fix: v1 the list of allowed roles is no longer
 overwritten by later calls

---
 v1/role_manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 8f074e5..24b7b7f 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -525,7 +525,7 @@ func (u *RoleManager) GetAllowedRoles(principalRoles []TenantPrincipal, namespac
 			return nil
 		}
 	}
-	return slices.Compact(allowedRoles)
+	return slices.Clone(slices.Compact(allowedRoles))
 }
 func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bool {
 	svr := &Option{}
-- 
2.43.0


From 28425531a5bdf5c8adc39208d4dbdf8ac76153bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:26 +0000
Subject: [PATCH 30/37] fix: v1 a tenant is only open to principals assigned in
 it

---
 v1/role_manager.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 24b7b7f..03a80d0 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -538,7 +538,7 @@ func (u *RoleManager) Authorize(principalID string, options ...func(*Option)) bo
 
 	// Check if only tenant is provided
 	if svr.tenant != nil && svr.namespace == nil && svr.scope == nil && svr.resourceGroup == nil && svr.activity == nil {
-		return u.authorizeForTenant(utils.ToString(svr.tenant))
+		return u.authorizeForTenant(principalID, utils.ToString(svr.tenant))
 	}
 
 	// Check if only namespace is provided
@@ -631,9 +631,9 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 	return false
 }
 
-func (u *RoleManager) authorizeForTenant(tenantID string) bool {
+func (u *RoleManager) authorizeForTenant(principalID, tenantID string) bool {
 	_, exists := u.GetTenant(tenantID)
-	return exists
+	return exists && u.GetPrincipalRoles(tenantID, principalID) != nil
 }
 
 func (u *RoleManager) authorizeForNamespace(principalID, namespace string) bool {
-- 
2.43.0


From 8a130af573027f2d5d01379e8de8ce2c2820094a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:27 +0000
Subject: [PATCH 31/37] fix: v1 a scope assigned to someone else in a namespace
 no longer opens it

---
 v1/role_manager.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 03a80d0..1dcbff0 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -622,9 +622,12 @@ func (u *RoleManager) authorizeForTenantNamespaceAndScope(principalID, tenantID,
 			return true
 		}
 	}
+	if userRoles == nil {
+		return false
+	}
 	tenantRoles := u.GetTenantRoles(tenantID)
 	for _, r := range tenantRoles {
-		if r.NamespaceID == namespaceID && r.ScopeID == scopeID {
+		if r.PrincipalID == "" && r.NamespaceID == namespaceID && r.ScopeID == scopeID {
 			return true
 		}
 	}
-- 
2.43.0


From cfc1af65e017aed18dde74a4eef4a02408492cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:28 +0000
Subject: [PATCH 32/37] fix: v1 a role assigned for one namespace or scope no
 longer counts in another

---
 v1/role_manager.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v1/role_manager.go b/v1/role_manager.go
index 1dcbff0..aade018 100644
--- a/v1/role_manager.go
+++ b/v1/role_manager.go
@@ -728,6 +728,11 @@ func (u *RoleManager) authorizeComplex(svr *Option, principalID string) bool {
 	}
 	roles := make(map[string]*Role)
 	for _, r := range principalRoles {
+		// An assignment for a namespace or scope does not count for another one
+		if namespace != "" && r.NamespaceID != "" && r.NamespaceID != namespace ||
+			scope != "" && r.ScopeID != "" && r.ScopeID != scope {
+			continue
+		}
 		if role, ex := u.roles.Get(r.RoleID); ex {
 			roles[r.RoleID] = role
 		}
-- 
2.43.0


From 8b5a8caa7249e4032e2295f119972c7e1df1172d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:03 +0000
Subject: [PATCH 33/37] fix: union and intersection no longer confuse elements
 whose contents contain separators

---
 utils/str.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/utils/str.go b/utils/str.go
index 4652f0b..2c64b38 100644
--- a/utils/str.go
+++ b/utils/str.go
@@ -161,21 +161,21 @@ func Union[T any](a, b []T) []T {
 func Serialize[T any](item T) string {
 	v := reflect.ValueOf(item)
 	if v.Kind() == reflect.Map {
-		keys := v.MapKeys()
-		sort.Slice(keys, func(i, j int) bool {
-			return keys[i].String() < keys[j].String()
-		})
-		var builder strings.Builder
-		for _, k := range keys {
-			builder.WriteString(fmt.Sprintf("%s:%v|", k, v.MapIndex(k)))
+		entries := make([]string, 0, v.Len())
+		for _, k := range v.MapKeys() {
+			entries = append(entries, fmt.Sprintf("%#v:%#v|", k, v.MapIndex(k)))
 		}
-		return builder.String()
+		sort.Strings(entries)
+		return strings.Join(entries, "")
+	}
+	if v.Kind() != reflect.Struct {
+		return fmt.Sprintf("%#v", item)
 	}
 
 	var builder strings.Builder
 	t := v.Type()
 	for i := 0; i < v.NumField(); i++ {
-		builder.WriteString(fmt.Sprintf("%s:%v|", t.Field(i).Name, v.Field(i).Interface()))
+		builder.WriteString(fmt.Sprintf("%s:%#v|", t.Field(i).Name, v.Field(i)))
 	}
 
 	return builder.String()
-- 
2.43.0


From bc5ba0a881e92c23f6f3ce20876db5aa861c933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:09 +0000
Subject: [PATCH 34/37] fix: v2: decisions see all or none of the roles
 registered by one call

---
 v2/init.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/v2/init.go b/v2/init.go
index df7f1c0..7af934e 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -1,6 +1,9 @@
 package v2
 
 func (a *Authorizer) AddRoles(role ...*Role) {
+	// A decision must not see only some of the roles
+	a.m.Lock()
+	defer a.m.Unlock()
 	a.roleDAG.AddRole(role...)
 }
 
-- 
2.43.0


From d7e91ff49cf3258cb31c71975ca34995c8e40b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:10 +0000
Subject: [PATCH 35/37] fix: v2: decisions see all or none of the tenants
 registered by one call

---
 v2/init.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/v2/init.go b/v2/init.go
index 7af934e..05f3996 100644
--- a/v2/init.go
+++ b/v2/init.go
@@ -24,18 +24,19 @@ func (a *Authorizer) AddChildRole(parent string, child ...string) error {
 }
 
 func (a *Authorizer) AddTenants(tenants ...*Tenant) {
+	// A decision must not see only some of the tenants
+	a.m.Lock()
+	defer a.m.Unlock()
 	for _, tenant := range tenants {
-		a.AddTenant(tenant)
+		a.tenants[tenant.ID] = tenant
+		for _, child := range tenant.children() {
+			a.parentCache[child.ID] = tenant
+		}
 	}
 }
 
 func (a *Authorizer) AddTenant(tenant *Tenant) *Tenant {
-	a.m.Lock()
-	defer a.m.Unlock()
-	a.tenants[tenant.ID] = tenant
-	for _, child := range tenant.children() {
-		a.parentCache[child.ID] = tenant
-	}
+	a.AddTenants(tenant)
 	return tenant
 }
 
-- 
2.43.0


From 6a6af2cc55dc460749248b1beebaf54f03f5805a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:35 +0000
Subject: [PATCH 36/37] fix: a group granted to a role no longer drops
 permissions granted at the same time

---
 role.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/role.go b/role.go
index 9b357ad..c488d41 100644
--- a/role.go
+++ b/role.go
@@ -152,7 +152,7 @@ func (r *Role) AddPermissionResourceGroup(resourceGroup *AttributeGroup) error {
 			own.AddAttributes(attr)
 			return true
 		})
-		r.permissions.Set(resourceGroup.id, own)
+		r.permissions.GetOrSet(resourceGroup.id, own)
 	}
 	return nil
 }
-- 
2.43.0


From e6d33a70e69c26a1f0c160ec3d172684f040e90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:35 +0000
Subject: [PATCH 37/37] fix: a decision overlapping an assignment no longer
 grants through inadmissible roles

---
 authorize.go | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/authorize.go b/authorize.go
index aceb5fb..7daf5a4 100644
--- a/authorize.go
+++ b/authorize.go
@@ -151,11 +151,6 @@ func (u *RoleManager) collectRoles(principalID string, tenant any) (roles, allow
 }
 
 func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenant, namespace any) (roles, allowedRoles []string) {
-	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
-			allowedRoles = append(allowedRoles, d.Role.(string))
-		}
-	}
 	for _, d := range u.GetRolesForPrincipalByTenantAndNamespace(principalID, tenant, namespace) {
 		if d.Namespace == nil || d.Namespace == namespace {
 			if d.Role != nil {
@@ -163,15 +158,16 @@ func (u *RoleManager) collectRolesByTenantAndNamespace(principalID string, tenan
 			}
 		}
 	}
-	return
-}
-
-func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, scope any) (roles, allowedRoles []string) {
+	// After the principal's roles, so that these are always among them
 	for _, d := range u.GetRolesByTenant(tenant) {
 		if d.Role != nil {
 			allowedRoles = append(allowedRoles, d.Role.(string))
 		}
 	}
+	return
+}
+
+func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, scope any) (roles, allowedRoles []string) {
 	for _, d := range u.GetRolesForPrincipalByTenantAndScope(principalID, tenant, scope) {
 		if d.Scope == nil || d.Scope == scope {
 			if d.Role != nil {
@@ -179,16 +175,17 @@ func (u *RoleManager) collectRolesByTenantAndScope(principalID string, tenant, s
 			}
 		}
 	}
+	// After the principal's roles, so that these are always among them
+	for _, d := range u.GetRolesByTenant(tenant) {
+		if d.Role != nil {
+			allowedRoles = append(allowedRoles, d.Role.(string))
+		}
+	}
 	return
 }
 
 func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namespace, scope any) (roles, allowedRoles []string) {
 	for _, t := range u.GetTenants(principalID) {
-		for _, d := range u.GetRolesByTenant(t.Tenant) {
-			if d.Role != nil {
-				allowedRoles = append(allowedRoles, d.Role.(string))
-			}
-		}
 		for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, t.Tenant, namespace, scope) {
 			if d.Role != nil {
 				if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
@@ -196,16 +193,17 @@ func (u *RoleManager) collectRolesByNamespaceAndScope(principalID string, namesp
 				}
 			}
 		}
+		// After the principal's roles, so that these are always among them
+		for _, d := range u.GetRolesByTenant(t.Tenant) {
+			if d.Role != nil {
+				allowedRoles = append(allowedRoles, d.Role.(string))
+			}
+		}
 	}
 	return
 }
 
 func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string, tenant, namespace, scope any) (roles, allowedRoles []string) {
-	for _, d := range u.GetRolesByTenant(tenant) {
-		if d.Role != nil {
-			allowedRoles = append(allowedRoles, d.Role.(string))
-		}
-	}
 	for _, d := range u.GetRolesForPrincipalByTenantNamespaceAndScope(principalID, tenant, namespace, scope) {
 		if d.Role != nil {
 			if (d.Namespace == nil || d.Namespace == namespace) && (d.Scope == nil || d.Scope == scope) {
@@ -213,5 +211,11 @@ func (u *RoleManager) collectRolesByTenantNamespaceAndScope(principalID string,
 			}
 		}
 	}
+	// After the principal's roles, so that these are always among them
+	for _, d := range u.GetRolesByTenant(tenant) {
+		if d.Role != nil {
+			allowedRoles = append(allowedRoles, d.Role.(string))
+		}
+	}
 	return
 }
-- 
2.43.0

