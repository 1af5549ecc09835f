import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    assert len(title)<=80,(id,len(title))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','v2: no grant without a live matching assignment of that very principal',
 "The v2 engine grants a request only if the requesting principal itself holds an unexpired role assignment in the tenant being evaluated (or in a child tenant reached from it step by step through unexpired assignments with which that same principal manages child tenants), with a namespace that is blank or the evaluated one and a scope that is blank or the requested one, and the assigned role or a role it inherits carries a permission matching the requested resource and action. Assignments of other principals, tenants, namespaces or scopes, and roles that are not registered, never contribute. A request with neither resource nor action is never granted.",
 ['configurations','inputs'],"All tenant trees, role graphs, assignment sets and requests, whatever their number and order.",
 "The tests use one tenant, one role, one assignment and eight requests; a leak needs a second principal/tenant/namespace/scope/role combination.",
 ['v2/v2.go','v2/role.go'],[('Authorizer.Authorize / resolvePrincipalPermissions','v2/v2.go'),('RoleDAG.ResolvePermissions','v2/role.go'),('matchPermission','v2/v2.go')],
 [('userRoles','assignments of principals to roles','v2/v2.go Authorizer'),('edges','role inheritance links','v2/role.go RoleDAG')],['Authorizer.Authorize'])
p('C02','v2: every live matching assignment does grant',
 "In the v2 engine, when the evaluated tenant contains the evaluated namespace and that namespace contains the requested scope (if one is requested), an unexpired assignment of the principal there, blank or equal in namespace and scope, whose role or any role it inherits transitively carries a matching permission, leads to a grant. The only exception: if the principal has any permission from assignments made for exactly the requested scope, those replace the permissions of its scope-less assignments. Neither the number or order of assignments, tenants, roles, links and permissions nor other principals' data changes this.",
 ['configurations','inputs'],"All configurations and requests as in C01, including sizes beyond any internal buffer.",
 "Only one positive case is tested (one assignment, no inheritance, no management of children, no scope precedence).",
 ['v2/v2.go','v2/role.go'],[('Authorizer.Authorize / resolvePrincipalPermissions','v2/v2.go'),('RoleDAG.ResolvePermissions','v2/role.go')],None,['Authorizer.Authorize'])
p('C03','v2: tenant, namespace and scope of a request resolve as documented',
 "A v2 decision or role check that names a tenant is evaluated in exactly that tenant and denied if it is unknown; one that names none is evaluated in the default tenant if one is set (denied if that is unknown), otherwise in every active tenant in which the principal has an assignment, however many, and is granted if any of them grants. A request that names no namespace uses the tenant's default namespace, else its only namespace, else that tenant does not grant. A namespace the tenant does not contain, or a non-blank scope the namespace does not contain, never grants.",
 ['configurations','inputs'],"All combinations of named/unnamed tenant, namespace, scope with default/sole/several/missing ones, tenant statuses and 0..N tenants per principal.",
 "Tests cover one unknown tenant, one unknown scope and one default namespace; no unnamed tenant, no default tenant, no status, no second tenant.",
 ['v2/v2.go','v2/entities.go','v2/role.go'],[('findTargetTenants, findPrincipalTenants, namespace selection in Authorize/Can','v2/v2.go'),('Tenant.AddNamespace, NewTenant','v2/role.go, v2/entities.go')],None,['Authorizer.Authorize','Authorizer.Can'])
p('C04','v2: an assignment counts exactly until its expiry and never after',
 "A v2 assignment with an expiry counts at every instant up to and including the expiry and at no later instant, after which it confers nothing: no permissions, no roles, no reach into child tenants. Setting an absolute expiry in the past, or a duration text that cannot be parsed, returns an error and leaves the assignment's expiry unchanged; otherwise the new expiry is exactly the given time, or now plus the given positive duration (text or typed). Clearing the expiry makes the assignment permanent again.",
 ['inputs','histories'],"All sequences of expiry operations and clock advances, for decisions and role checks, including assignments used only to manage children.",
 "No test sets an expiry; the boundary instant cannot be hit with a real clock.",
 ['v2/v2.go'],[('PrincipalRole.IsExpired, SetExpiry, SetExpiryDuration, ClearExpiry','v2/v2.go'),('expiry tests in resolvePrincipalPermissions / resolvePrincipalRoles','v2/v2.go')],None,['Authorizer.Authorize','Authorizer.Can','PrincipalRole.IsExpired'])
p('C05','v2: role inheritance stays acyclic and is exactly reachability',
 "Linking child roles to a parent in v2 fails exactly when it would close a cycle (including a role under itself), and a failed call adds none of its links; every other call, including ones forming diamonds or repeating a link, succeeds. The permissions resolved for a registered role are exactly those of the registered roles reachable from it through registered roles, and the roles resolved for it are exactly those roles themselves.",
 ['histories','configurations'],"All sequences of role registrations and (multi-child) link calls over a small set of roles, with resolution queries anywhere in between.",
 "The circular-role test builds an empty engine; no test links two roles.",
 ['v2/role.go','v2/init.go'],[('RoleDAG.AddChildRole / checkCircularDependency','v2/role.go'),('RoleDAG.ResolvePermissions / ResolveChildRoles','v2/role.go')],[('edges','inheritance links','v2/role.go RoleDAG')],['AddChildRole','ResolvePermissions','ResolveChildRoles'])
p('C06','v2: decisions depend only on the current configuration, not on history',
 "After any sequence of v2 administrative calls (adding or removing role permissions, adding roles, links, assignments, tenants, namespaces, scopes, child tenants, defaults) interleaved with any decisions, role checks and resolutions, every answer equals that of a fresh engine given only the resulting configuration. In particular a revoked permission stops granting and an added one starts granting at once, and asking a question never changes the answer to any other question.",
 ['histories'],"All operation sequences up to a bound, with and without queries between them.",
 "No test performs a change after a first decision.",
 ['v2/v2.go','v2/role.go','v2/init.go'],[('RoleDAG.resolved memo and its invalidation','v2/role.go'),('Role.AddPermission / RemovePermission','v2/role.go'),('Authorizer.AddPrincipalRole / RemovePrincipalRole','v2/v2.go')],[('resolved','memoised permission/role closure','v2/role.go RoleDAG')],['Authorizer.Authorize','Authorizer.Can','RoleDAG'])
p('C07','v2: revoking assignments removes exactly the matching ones',
 "Removing v2 assignments by a template (blank fields match anything) removes every assignment that agrees with all non-blank ones of principal, tenant, namespace, scope and role of the template (whatever the expiry and manage flag of either) and no other, wherever it stands in the insertion order; later decisions behave as if the removed ones had never been made and the remaining ones still grant. If nothing matches, the call returns an error and nothing changes; it never makes later calls fail.",
 ['histories','inputs'],"All assignment lists up to a bound, all templates, and repeated/interleaved additions and removals.",
 "No test removes an assignment.",
 ['v2/v2.go'],[('Authorizer.RemovePrincipalRole','v2/v2.go')],[('userRoles, userRoleMap','assignment list and index','v2/v2.go Authorizer')],['Authorizer.RemovePrincipalRole','Authorizer.Authorize','Authorizer.Can'])
p('C08','v2: role check answers exactly the roles the principal holds',
 "The v2 role check is true exactly when one of the asked role names is held in a tenant being evaluated: assigned to that principal there, or in a child tenant reached through its own unexpired managing assignments, by an unexpired assignment whose namespace is blank or the evaluated one, or inherited from such a role through registered roles. Tenant, namespace and scope validity apply as for decisions (the scope recorded on an assignment does not restrict this check); with no role asked it is false; permission names are never accepted as roles.",
 ['configurations','histories','inputs'],"All configurations, role queries and interleavings with decisions.",
 "The role check is not tested at all.",
 ['v2/v2.go','v2/role.go'],[('Authorizer.Can / resolvePrincipalRoles','v2/v2.go'),('RoleDAG.ResolveChildRoles','v2/role.go')],None,['Authorizer.Can'])
p('C09','v2: the audit log agrees with every decision',
 "When a v2 engine has an audit logger, every decision and role check writes exactly one closing record for the request: a granted record if and only if the call returned true, and otherwise a denial record; no granted record ever accompanies a false answer. Each record carries exactly the non-blank fields of the request (principal, tenant, namespace, scope, resource, action) with their values plus a timestamp. Having a logger never changes an answer.",
 ['inputs','configurations'],"All outcomes (granted, denied, unknown tenant, unresolvable) over all request shapes.",
 "No test attaches a logger.",
 ['v2/v2.go'],[('Authorizer.Log and its call sites in Authorize/Can','v2/v2.go')],None,['slog handler','Authorizer.Authorize','Authorizer.Can'])
p('C10','v2: concurrent decisions and changes behave like sequential ones',
 "Any number of concurrent v2 decisions, role checks and lookups, overlapping with administrative calls on the engine, its tenants and its roles, neither race, crash nor deadlock. A decision that overlaps a single administrative call (even one given several roles, tenants or assignments) answers as if made entirely before or entirely after it, and a decision never uses permissions gathered for another request. No assignment, tenant, role, permission or link added by concurrent calls is lost.",
 ['schedules'],"All interleavings of 2-3 threads with 1-2 calls each, up to a preemption bound.",
 "All tests are single threaded.",
 ['v2/v2.go','v2/role.go','v2/init.go','utils/pool.go'],[('Authorizer.m, Tenant.m, Role.m, RoleDAG.mu','v2'),('pooled permission sets','v2/v2.go resolvePrincipalPermissions / resolvePrincipalRoles')],None,['Authorizer.*','Tenant.*','Role.*'])
p('C11','Permission patterns match exactly what they denote, and matching terminates',
 "A permission pattern matches a value iff the whole value can be read as the pattern with ordinary characters standing for themselves, each parameter (a colon and what follows it up to the next slash, space or the end) standing for one or more characters that are neither slash nor space, and each asterisk outside a parameter standing for any (possibly empty) text. In particular a trailing parameter never swallows the action part. Matching terminates for every pattern and value.",
 ['inputs'],"All pattern/value pairs over a small alphabet up to a length bound, plus structured longer ones.",
 "Tests only match one literal pattern without parameters or asterisks.",
 ['utils/str.go'],[('MatchResource','utils/str.go')],None,['utils.MatchResource','Role.Has','Authorizer.Authorize'])
p('C12','Root engine: tenants are isolated unless authority is delegated downwards',
 "In the root engine a request that names a tenant is granted only on the strength of the principal's assignments in that tenant, or in an ancestor of it over which the principal was given the right to manage descendants (directly or from a still higher such ancestor); assignments in any other tenant, and assignments without that right, never open a tenant. The set of tenants reported as reachable for a principal is exactly the tenants it is assigned in plus all descendants (at any depth) of those it manages. Authority never flows upwards or sideways.",
 ['configurations','inputs'],"All tenant forests, assignment sets with/without the management right, insertion orders and requests within the bounds.",
 "The root package has no test at all.",
 ['authorize.go','query.go','tenant.go','role_manager.go'],[('RoleManager.Authorize fallback loop','authorize.go'),('GetImplicitTenants','query.go'),('TenantChildren / Tenant.GetDescendants','role_manager.go, tenant.go')],None,['RoleManager.Authorize','RoleManager.GetImplicitTenants'])
p('C13','Root engine: an activity is granted exactly to holders of a matching role',
 "For a reachable tenant, the root engine grants an activity of a permission group exactly when the principal itself is assigned, in that tenant or in a managed ancestor, a registered role whose namespace and scope restrictions do not contradict those named in the request, and that role, or a role it inherits that is in use in that tenant, has in that group a permission equal to or matching the activity. With namespace and scope but no tenant, the principal's own tenants are considered. Other principals' assignments never count, and naming only a group or only an activity is never granted.",
 ['configurations','inputs'],"All assignment sets over small domains of principals, tenants, namespaces, scopes, roles, and all request shapes.",
 "The root package has no test at all.",
 ['authorize.go','filters.go','query.go','role.go'],[('checkActivity and collectRoles*','authorize.go'),('filterRole* predicates','filters.go'),('Role.Has','role.go')],None,['RoleManager.Authorize'])
p('C14','Root engine: access without activity follows recorded membership exactly',
 "Without group and activity, the root engine grants for a reachable tenant: the tenant alone iff the principal is assigned in it (or in a managed ancestor); a namespace or a scope in it iff that is recorded there (or in a managed ancestor) for everyone or for this principal; namespace and scope together iff the scope is recorded there for this principal, or for everyone either tenant-wide or under that namespace. With no tenant named, namespace plus scope are judged in the principal's own tenants and any other combination is denied. Unregistered principals, tenants, namespaces or scopes are always denied, as are resources recorded only for other principals.",
 ['configurations','inputs'],"All record sets over small domains and all request shapes.",
 "The root package has no test at all.",
 ['authorize.go','filters.go','query.go'],[('checkNoActivity, validateResources','authorize.go'),('filterScope*/filterNamespace* predicates','filters.go')],None,['RoleManager.Authorize'])
p('C15','Root engine: answers depend only on current records, not on history or order',
 "After any sequence of root-engine registrations, assignments, hierarchy links and default-namespace settings interleaved with any decisions or queries, every decision, reachable-tenant query and listing query of C22 (as a set) equals that of a fresh engine that received the same calls without the queries, and does not depend on the order of independent calls or on internal iteration order. Asking never changes later answers.",
 ['histories'],"All operation sequences up to a bound, each with and without intermediate queries and in all orders.",
 "The root package has no test at all.",
 ['query.go','role_manager.go','tenant.go','trie/trie.go'],[('GetImplicitTenants','query.go'),('TenantChildren','role_manager.go'),('AddData / trie insert','role_manager.go, trie/trie.go')],None,['RoleManager.*'])
p('C16','Record store returns exactly the inserted records matching a filter',
 "The record store (trie) keeps every inserted record under its full key, blank positions included: records with different keys never overwrite or merge with each other, re-inserting an equal key leaves one record (the latest), and blank records and blank filters are handled. A search returns each stored record accepted by the given (or default) predicate exactly once, for any number of records; the first-match search returns one of them, or nothing if there is none; listing returns all.",
 ['inputs','histories'],"All record sets over a small key alphabet with blanks, with ids shared across positions, in all insertion orders, and store sizes past every internal capacity.",
 "The trie only has a benchmark.",
 ['trie/trie.go','filters.go'],[('Trie.Insert/addChild','trie/trie.go'),('Trie.search','trie/trie.go'),('FilterFunc, DataKeyExtractor','filters.go')],None,['Trie.Search','Trie.SearchFunc','Trie.First','Trie.FirstFunc','Trie.Data'])
p('C17','Root and v1 roles: inherited permissions are exactly those of descendants',
 "A root or v1 role has an activity in a group exactly when it or a role transitively below it (restricted, if a list of admissible roles is given, to descendants on that list) has in that group a permission equal to or matching it, even if the role itself has nothing in that group. The listing of implicit permissions of a role contains exactly its own and all its descendants' permissions per group, its own listing exactly its own, and a link that would make a role its own descendant is refused with an error, so these questions always terminate.",
 ['configurations','histories'],"All role graphs over a few roles, groups and permissions, all link orders, all admissible lists.",
 "Tests never link roles; v1 tests check one directly assigned permission.",
 ['role.go','v1/role.go','permission.go'],[('Role.Has','role.go, v1/role.go'),('GetDescendantRoles, GetAllImplicitPermissions, GetPermissions','role.go, v1/role.go'),('AddDescendant / AddDescendent','role.go, v1/role.go')],None,['Role.Has','Role.GetAllImplicitPermissions','Role.GetPermissions'])
p('C18','Root and v1: a locked role cannot change, and no role change leaks into another',
 "While a root or v1 role is locked, every attempt to add permissions, a permission group or descendants to it returns an error and changes nothing, whatever is done to groups or other roles meanwhile; after unlocking, changes work again. Changing one role, or a permission group after it was given to a role, never changes the direct permissions of another role.",
 ['histories'],"All sequences of lock, unlock, add-permission, add-group, add-descendant and group-change calls over a few roles sharing groups.",
 "Locking and group sharing are untested.",
 ['role.go','v1/role.go'],[('Role.Lock/Unlock checks','role.go, v1/role.go'),('AddPermission, AddPermissionResourceGroup','role.go, v1/role.go')],None,['Role.GetPermissions','Role.Has'])
p('C19','Catalogues keep one entry per id and rejected changes change nothing',
 "In the root and v1 engines the first registration of an id wins, is returned by later registrations and lookups, and totals, listings and summaries count every registered id exactly once; in v2 the latest registration of a role or tenant id is the one looked up. Granting permissions to a role is refused with an error and no effect if the role or group is unknown or any of the permissions is not in the group. In the root engine assigning a role or scope to a principal is refused with an error and no record for that pair if the principal, role or scope is unknown.",
 ['histories','inputs'],"All registration sequences with repeated ids and all valid/invalid argument combinations, and catalogue sizes up to a few hundred.",
 "Tests register one entity of each kind and never repeat or reject one.",
 ['permission.go','activity.go','activity_group.go','namespace.go','principal.go','scope.go','tenant.go','role.go','v1/role_manager.go','v2/init.go'],[('Add*/Get*/Total* registries','root and v1'),('AddPermissionsToRole','role.go, v1/role_manager.go'),('AddPrincipalWithRole, AddScopeToPrincipal','tenant.go')],None,['Add*, Get*, Total*, Summary'])
p('C20','Root engine: default namespaces apply to later assignments and to descendants',
 "Once a root-engine tenant has a registered default namespace, every later role or scope assignment in that tenant is also recorded for that namespace with the same principal, role/scope and management right, while earlier ones are not. Adding descendants to such a tenant makes the namespace one of theirs and their default. Naming an unregistered default namespace changes nothing.",
 ['histories'],"All orders of setting defaults, adding descendants, and assigning roles and scopes.",
 "The root package has no test at all.",
 ['tenant.go'],[('SetDefaultNamespace, AddDescendant, AddPrincipalWithRole, AddScopeToPrincipal','tenant.go')],None,['Trie.Data','RoleManager.Authorize'])
p('C21','Root engine: concurrent changes are never lost and decisions stay consistent',
 "Concurrent root-engine registrations, assignments, permission grants, decisions and queries neither race, crash nor deadlock, and every record, registration and permission added by concurrent calls is present afterwards, with concurrent registrations of one id agreeing on a single entry. A decision overlapping additions answers as if it ran at some instant between them; once an assignment call has returned, later decisions honour it. Setting default namespaces, locking roles, registering one tenant object twice and linking two roles or tenants both ways at once are left out.",
 ['schedules'],"All interleavings of 2-3 threads with 1-2 calls each, up to a preemption bound.",
 "The root package has no test at all.",
 ['trie/trie.go','role_manager.go','query.go','role.go','permission.go','tenant.go'],[('Trie.Insert/addChild/search','trie/trie.go'),('registries','root package'),('Role.AddPermission','role.go')],None,['RoleManager.*','Trie.*'])
p('C22','Root engine: listing queries return exactly the matching records',
 "Each root-engine listing of tenants, namespaces, scopes or roles by principal or tenant returns exactly the recorded assignments that name such an object for the asked principal or tenant (namespace and scope listings of a principal also include what is recorded for everyone in the tenants concerned): never a record of another principal or of another tenant than asked for, none missing and none twice. Role listings narrowed to a namespace or scope contain at least all roles of that principal in that tenant that are unrestricted or restricted to it. Id extraction from results keeps each id once. The textual dump of the engine is exactly the recorded assignments. For a tenant the principal is assigned in, the combined scopes-with-roles report names each scope once, names only scopes recorded in that tenant and roles this principal holds there, and gives every scope recorded for everyone in the asked namespace all of those roles. (The implicit-scopes query, an unfinished stub, is not covered.)",
 ['configurations','inputs'],"All record sets over small domains and all query arguments.",
 "The root package has no test at all.",
 ['query.go','filters.go','role_manager.go','activity_group.go'],[('Get*By* queries','query.go'),('filter predicates','filters.go'),('Get*IDs','role_manager.go')],None,['RoleManager.Get*'])
p('C23','v1: an activity is granted only to a holder of a fitting role in that tenant',
 "The v1 engine grants an activity (in a group, or in none) in a named tenant only if the principal is registered, the tenant is registered and contains the named namespace and scope, and the principal itself has in that tenant an assignment, not restricted to another namespace or scope than the named ones, of a registered role that has the activity itself or through its descendants. It does grant whenever such an assignment's role has a matching permission of its own in that group. Without a named tenant an activity is granted at most when nothing else is named, and then only if the principal has in some tenant an assignment of a registered role that has it. Other principals' and other tenants' assignments never count.",
 ['configurations','inputs'],"All v1 setups over small domains (default namespaces, namespace/scope assignments) and all activity requests.",
 "The only v1 activity path executed by tests prints its result without asserting.",
 ['v1/role_manager.go','v1/tenant.go','v1/role.go'],[('authorizeComplex, GetAllowedRoles','v1/role_manager.go'),('AddPrincipal*, AssignScopes*','v1/tenant.go'),('Role.Has','v1/role.go')],None,['RoleManager.Authorize'])
p('C24','v1: membership decisions reflect the principal\'s own assignments',
 "Without group and activity the v1 engine grants: a tenant iff the principal is assigned in it; a namespace iff a tenant it is assigned in contains it; a scope iff it is assigned that scope in a tenant containing it; tenant plus namespace, tenant plus scope, namespace plus scope, or all three iff one of its own assignments in (that or, if none is named, one) tenant names exactly those, or, for all three, the scope was put in that namespace of that tenant and the principal is assigned in the tenant. Unregistered principals and tenants are denied, and other principals' assignments never count.",
 ['configurations','inputs'],"All v1 setups over small domains and all request shapes without activity.",
 "Tests assert one tenant-only positive case.",
 ['v1/role_manager.go','v1/tenant.go'],[('Authorize and authorizeFor*','v1/role_manager.go'),('AddPrincipal*, AssignScopes*, AddScopesToNamespace','v1/tenant.go')],None,['RoleManager.Authorize'])
p('C25','v1: assignments survive storage unchanged for every id',
 "Whatever characters the ids of principals, roles, tenants, namespaces and scopes contain, a v1 assignment is later reported with exactly the ids and management right it was made with, distinct assignments stay distinct, and repeating one has no effect. No assignment is ever attributed to a principal, role, tenant, namespace or scope other than its own.",
 ['inputs'],"All id tuples over an alphabet containing the storage separator and escape characters, and pairs of such assignments.",
 "Tests use ids without special characters.",
 ['v1/role_manager.go'],[('AddPrincipalRole encoding / getTenantPrincipals decoding','v1/role_manager.go')],[('tenantPrincipals','set of encoded assignments','v1/role_manager.go')],['GetPrincipalRoles','GetTenantRoles','Authorize'])
p('C26','v1: queries return the asked principal\'s data and results stay valid',
 "Every v1 query about a principal returns exactly its own assignments in the asked tenant (plus, for the implicit-role query, in that tenant's direct descendants), each tenant listed once; per-tenant queries return exactly that tenant's assignments. The list of allowed roles for given assignments, namespace and scope depends only on those and the current setup and names only roles that the tenant contains and that the assignments name or the namespace was given, and a returned list is never altered by later calls on any engine.",
 ['configurations','histories'],"All v1 setups over small domains, all query arguments, and all pairs of consecutive calls.",
 "Tests call two of the queries once.",
 ['v1/role_manager.go','utils/pool.go'],[('Get*ForPrincipal, GetPrincipalRoles, GetImplicitPrincipalRoles','v1/role_manager.go'),('GetAllowedRoles and pooled slices','v1/role_manager.go, v1/util.go')],None,['RoleManager.Get*'])
p('C27','Linked list: persistent, ordered, and converts to exactly its elements',
 "A list built by any combination of empty, append and concatenate converts to the elements in order (appending adds at the end, concatenating puts the argument's elements after), is empty iff it has no elements, and no later operation on it or on lists sharing structure with it, nor changing a returned slice, alters what it converts to.",
 ['histories'],"All operation sequences up to a bound over a growing pool of lists, including self-concatenation.",
 "The ds package has no test.",
 ['ds/ds.go'],[('Append, Concat, AsSlice, IsEmpty','ds/ds.go')],None,['Link.AsSlice','Link.IsEmpty'])
p('C28','Collection helpers compute the set and join operations they name',
 "Compacting keeps the first occurrence of every element in order; membership is true iff an equal element is present; intersection is the elements of the second list that occur in the first and union is the first list followed by the elements of the second not in the first, in order, with elements identified by their contents; joining yields, in left-then-right order, the combination of exactly the pairs that satisfy the condition; field filtering holds iff every chosen field of the row is non-blank and equal to the filter's. None of them modifies its arguments, and a pooled slice is always handed out empty. Conversion of a value to text is the text itself, the bytes' characters, what the value says of itself, or its default format, blank for nothing; texts survive conversion to bytes and back.",
 ['inputs'],"All argument lists up to a length bound over a small element domain.",
 "The helpers have no tests.",
 ['utils/str.go','utils/filters.go','utils/pool.go'],[('Compact, Contains, Intersection, Union, Serialize','utils/str.go'),('JoinSlices, FilterByFields, Match','utils/filters.go'),('SlicePool, Pool','utils/pool.go')],None,['utils.*'])
p('C29','Root and v1: tenant hierarchies stay acyclic, descendants are reachability',
 "Putting tenants below a tenant in the root and v1 engines is refused with an error exactly when it would make a tenant its own descendant (including a tenant below itself), and a refused call changes nothing; every other call, including repeated links and tenants with several parents, is accepted. The descendants reported for a tenant are exactly the tenants reachable downwards at any depth, each once where a list without repetitions is promised, so every question about the hierarchy terminates.",
 ['histories','configurations'],"All sequences of link calls over a few tenants, and all acyclic hierarchies with every further link.",
 "No test links tenants in a way that could close a cycle, and no test of the root engine exists.",
 ['tenant.go','v1/tenant.go','query.go','role_manager.go'],[('AddDescendant, hasDescendant, GetDescendants','tenant.go'),('AddDescendent, GetDescendantTenants','v1/tenant.go')],None,['Tenant.AddDescendant','Tenant.GetDescendants','RoleManager.TenantChildren','Tenant.GetDescendantTenants (v1)'])
p('C30','v1: assignment calls record exactly the assignments they describe',
 "Each v1 tenant call records exactly the following, nothing for any other principal or tenant, and nothing for roles, scopes or namespaces the tenant does not contain. Adding a principal with roles: each role tenant-wide and for the tenant's default namespace, if it has one by then. Adding it in a namespace: each named role for that namespace; with no role named, membership of it (no role) and every role it holds for another namespace of the tenant. Giving scopes, only to a principal already assigned in the tenant: each scope with no role, and both tenant-wide and for the default namespace with the role (or none) of each of its assignments there; with a named role, just the latter two for that role. Putting scopes into a namespace: each scope there, up to the first the tenant lacks, for everyone. Only a namespace the tenant contains becomes its default.",
 ['histories','inputs'],"All sequences of setup and assignment calls up to a bound, with known, unknown, repeated, several and no arguments.",
 "Tests use one fixed setup and look only at decisions, so a surplus, missing or misplaced assignment goes unnoticed.",
 ['v1/tenant.go','v1/role_manager.go'],[('AddPrincipal, AddPrincipalInNamespace, AssignScopesToPrincipal, AssignScopesWithRole, AddScopesToNamespace, SetDefaultNamespace','v1/tenant.go'),('AddPrincipalRole','v1/role_manager.go')],[('tenantPrincipals','encoded assignments','v1/role_manager.go RoleManager')],['RoleManager.GetTenantRoles'])
p('C31','Root engine: every recording call adds exactly the records it names',
 "In the root engine putting namespaces, scopes or roles into a tenant records each of them there for everyone; putting a scope into a namespace of a tenant, or a principal with a role into one, records exactly that combination; assigning roles or scopes to a principal records each with the given management right (and for the default namespace as in C20). A plural call none of whose pairs is refused records the same as the single calls one by one, whatever their number; repeating a call changes nothing; no call removes or alters a record; and registering objects, linking roles, granting permissions and asking questions record nothing.",
 ['histories','inputs'],"All sequences of recording and other calls up to a bound, with registered, unknown, repeated, several and no arguments.",
 "No test looks at the records of the root engine.",
 ['tenant.go','role_manager.go','trie/trie.go'],[('AddNamespace(s), AddScope(s), AddRole(s), AddScopesToNamespace, AddPrincipalInNamespace, AddPrincipal(WithRole), AddScopeToPrincipal, AssignScopesToPrincipal','tenant.go'),('AddData','role_manager.go')],[('trie','all records','role_manager.go RoleManager')],['RoleManager.Data'])
p('C32','v2: a call with several items does what one call per item would do',
 "In v2 registering tenants or roles, adding or removing permissions of a role, adding scopes to a namespace or children to a tenant, and adding assignments with any number of items in one call (none, one, repeated or very many) leaves the same configuration, and so the same decisions and role checks, as one call per item in the same order; adding scopes to a namespace the tenant does not have is refused and adds none. Linking several child roles links all of them or, if any would close a cycle, is refused and links none; a role check naming several roles is true exactly if it is for one of them. What the caller does afterwards with the list it passed changes nothing.",
 ['inputs','histories'],"All lists of items up to a length, all ways to cut them into calls, and single calls with 0..16, 17, 33, ... items.",
 "The tests call each of these once, mostly with one item.",
 ['v2/init.go','v2/role.go','v2/v2.go'],[('AddRoles, AddTenants, AddChildRole','v2/init.go'),('AddPermission, RemovePermission, AddScopeToNamespace, AddChildTenant, RoleDAG.AddRole/AddChildRole','v2/role.go'),('AddPrincipalRole, Can','v2/v2.go')],[('configuration','roles, links, tenants, assignments','v2/v2.go Authorizer')],['Authorizer.Authorize','Authorizer.Can','GetRole','GetTenant'])
p('C33','v1: allowed roles follow tenant, namespace and scope, and bound inheritance',
 "In v1 the allowed roles for a principal's assignments in a tenant, a namespace and a scope (each possibly none) are the roles given to the namespace or, if it has none, those the principal holds tenant-wide (for no namespace and no scope), together with those it holds for exactly that namespace and scope if both are named. There are none if the tenant lacks the namespace, the scope or one of these roles, if the namespace has scopes but not that one, or if the principal has neither a tenant-wide assignment nor one for that scope. An activity in a named tenant is granted exactly if an assignment there, not restricted to another namespace or scope than the named ones, has a registered role that has it itself or through a descendant among the allowed roles (through any descendant, if there are none). With nothing but an activity named, exactly if a role allowed in one of the principal's tenants has it, itself or through a descendant allowed in one of them.",
 ['inputs','histories'],"All placements of three roles in tenant, namespace and assignments, all sets of assignments and sequences of setup calls up to a bound, sizes to 129.",
 "Tests use one fixed setup, where all roles are allowed everywhere.",
 ['v1/role_manager.go','v1/tenant.go','v1/role.go'],[('GetAllowedRoles, getAllowedRoleIDs, authorizeForActivity, authorizeComplex','v1/role_manager.go'),('AddRolesToNamespace, AddScopesToNamespace, AddScopes, Namespace.AddRoles/AddScopes','v1/tenant.go'),('Has','v1/role.go')],[('namespaces','roles and scopes given to a namespace','v1/tenant.go Namespace')],['RoleManager.Authorize','RoleManager.GetAllowedRoles'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
