From 220e4261a34b40a7f60cc34c8ac8d90b5ffeb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 01/40] fix: keep the tokens and shares of an operator or
 service when it is updated

---
 x/operators/types/models.go | 8 +++++++-
 x/services/types/models.go  | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/x/operators/types/models.go b/x/operators/types/models.go
index 9f67af3..6a71745 100644
--- a/x/operators/types/models.go
+++ b/x/operators/types/models.go
@@ -220,7 +220,7 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL = o.PictureURL
 	}
 
-	return NewOperator(
+	operator := NewOperator(
 		o.ID,
 		o.Status,
 		update.Moniker,
@@ -228,6 +228,12 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL,
 		o.Admin,
 	)
+
+	// Updating the description must not touch the restaked assets
+	operator.Tokens = o.Tokens
+	operator.DelegatorShares = o.DelegatorShares
+
+	return operator
 }
 
 // --------------------------------------------------------------------------------------------------------------------
diff --git a/x/services/types/models.go b/x/services/types/models.go
index 0426655..e2c24f6 100644
--- a/x/services/types/models.go
+++ b/x/services/types/models.go
@@ -241,7 +241,7 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		update.PictureURL = s.PictureURL
 	}
 
-	return NewService(
+	service := NewService(
 		s.ID,
 		s.Status,
 		update.Name,
@@ -251,6 +251,12 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		s.Admin,
 		s.Accredited,
 	)
+
+	// Updating the description must not touch the restaked assets
+	service.Tokens = s.Tokens
+	service.DelegatorShares = s.DelegatorShares
+
+	return service
 }
 
 // --------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 85df0dc8537937b22cedef807b9b7db45f63e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:54 +0000
Subject: [PATCH 02/40] fix: complete each mature unbonding delegation only
 once per block

---
 x/restaking/keeper/end_blocker.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/restaking/keeper/end_blocker.go b/x/restaking/keeper/end_blocker.go
index 8e3aa90..a70a562 100644
--- a/x/restaking/keeper/end_blocker.go
+++ b/x/restaking/keeper/end_blocker.go
@@ -16,7 +16,16 @@ func (k *Keeper) CompleteMatureUnbondingDelegations(ctx sdk.Context) error {
 		return err
 	}
 
+	// The same unbonding delegation can be queued many times if it has more than
+	// one mature entry. Since all the mature entries are completed at once, we
+	// must process each unbonding delegation only one time.
+	completed := make(map[types.DTData]bool, len(matureUnbonds))
+
 	for _, data := range matureUnbonds {
+		if completed[data] {
+			continue
+		}
+		completed[data] = true
 
 		balances, err := k.CompleteUnbonding(ctx, data)
 		if err != nil {
-- 
2.43.0


From 240a3e2fe55d28b4484e60b08aaf7f18d14f47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 03/40] fix: reject the deletion of operators and services that
 still have restaked assets

---
 x/restaking/keeper/operators_hooks.go |  7 +++++
 x/restaking/keeper/services_hooks.go  |  7 +++++
 x/restaking/keeper/unbond.go          | 41 +++++++++++++++++++++++++++
 x/restaking/types/errors.go           |  1 +
 4 files changed, 56 insertions(+)

diff --git a/x/restaking/keeper/operators_hooks.go b/x/restaking/keeper/operators_hooks.go
index 0c3bd91..fa78c36 100644
--- a/x/restaking/keeper/operators_hooks.go
+++ b/x/restaking/keeper/operators_hooks.go
@@ -7,6 +7,7 @@ import (
 	"cosmossdk.io/collections"
 
 	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
+	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 )
 
 var _ operatorstypes.OperatorsHooks = &OperatorsHooks{}
@@ -23,6 +24,12 @@ func (k *Keeper) OperatorsHooks() operatorstypes.OperatorsHooks {
 
 // BeforeOperatorDeleted implements types.OperatorsHooks.
 func (o *OperatorsHooks) BeforeOperatorDeleted(ctx context.Context, operatorID uint32) error {
+	// Deleting an operator having restaked assets would lock them forever
+	err := o.ensureNoRestakedAssets(ctx, types.DELEGATION_TYPE_OPERATOR, operatorID)
+	if err != nil {
+		return err
+	}
+
 	// After the operator has been deleted
 	// we remove the data that we keep in the x/restaking module that are linked
 	// to the operator.
diff --git a/x/restaking/keeper/services_hooks.go b/x/restaking/keeper/services_hooks.go
index 54485ae..72c659e 100644
--- a/x/restaking/keeper/services_hooks.go
+++ b/x/restaking/keeper/services_hooks.go
@@ -5,6 +5,7 @@ import (
 
 	"cosmossdk.io/collections"
 
+	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
@@ -20,6 +21,12 @@ func (k *Keeper) ServicesHooks() servicestypes.ServicesHooks {
 
 // BeforeServiceDeleted implements types.ServicesHooks.
 func (h *ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// Deleting a service having restaked assets would lock them forever
+	err := h.ensureNoRestakedAssets(ctx, types.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+
 	// After the service has been deleted
 	// we remove the data that we keep in the x/restaking
 	// associated to this service.
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 7a29241..5ed8b49 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -315,6 +315,47 @@ func (k *Keeper) CompleteUnbonding(ctx context.Context, data types.DTData) (sdk.
 	return balances, nil
 }
 
+// ensureNoRestakedAssets returns an error if there are restaked assets, either delegated to
+// or unbonding from, the given operator or service.
+func (k *Keeper) ensureNoRestakedAssets(ctx context.Context, delType types.DelegationType, targetID uint32) error {
+	var delegationsPrefix []byte
+	var unbondingDelegations []types.UnbondingDelegation
+	var err error
+
+	switch delType {
+	case types.DELEGATION_TYPE_OPERATOR:
+		delegationsPrefix = types.DelegationsByOperatorIDStorePrefix(targetID)
+		unbondingDelegations, err = k.GetAllOperatorUnbondingDelegations(ctx)
+	case types.DELEGATION_TYPE_SERVICE:
+		delegationsPrefix = types.DelegationsByServiceIDStorePrefix(targetID)
+		unbondingDelegations, err = k.GetAllServiceUnbondingDelegations(ctx)
+	default:
+		return errors.Wrapf(types.ErrInvalidDelegationType, "invalid delegation type %v", delType)
+	}
+	if err != nil {
+		return err
+	}
+
+	store := k.storeService.OpenKVStore(ctx)
+	iterator, err := store.Iterator(delegationsPrefix, storetypes.PrefixEndBytes(delegationsPrefix))
+	if err != nil {
+		return err
+	}
+	defer iterator.Close()
+
+	if iterator.Valid() {
+		return types.ErrTargetHasDelegations
+	}
+
+	for _, ubd := range unbondingDelegations {
+		if ubd.TargetID == targetID {
+			return types.ErrTargetHasDelegations
+		}
+	}
+
+	return nil
+}
+
 // --------------------------------------------------------------------------------------------------------------------
 // --- Unbonding queue operations
 // --------------------------------------------------------------------------------------------------------------------
diff --git a/x/restaking/types/errors.go b/x/restaking/types/errors.go
index ca193d8..275aa65 100644
--- a/x/restaking/types/errors.go
+++ b/x/restaking/types/errors.go
@@ -19,4 +19,5 @@ var (
 	ErrPoolAlreadySecuringService     = errors.Register(ModuleName, 12, "pool already securing the service")
 	ErrPoolNotSecuringService         = errors.Register(ModuleName, 13, "pool not securing the service")
 	ErrDenomNotRestakable             = errors.Register(ModuleName, 14, "denom not restakable")
+	ErrTargetHasDelegations           = errors.Register(ModuleName, 15, "delegation target still has delegations or unbonding delegations")
 )
-- 
2.43.0


From a3b5291e84ecaa90a12437e57176fbfb96b06732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 04/40] fix: delete the params of an operator or service when
 it is deleted

---
 x/operators/keeper/operators.go | 6 ++++++
 x/services/keeper/services.go   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 16adc5d..321529c 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -136,6 +136,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return err
 	}
 
+	// Delete the operator params
+	err = k.DeleteOperatorParams(ctx, operator.ID)
+	if err != nil {
+		return err
+	}
+
 	return k.operatorAddressSet.Remove(ctx, operator.Address)
 }
 
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 1535933..d0c74c9 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -147,6 +147,12 @@ func (k *Keeper) DeleteService(ctx context.Context, serviceID uint32) error {
 		return err
 	}
 
+	// Remove the service params
+	err = k.serviceParams.Remove(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return k.serviceAddressSet.Remove(ctx, service.Address)
 }
 
-- 
2.43.0


From b3d3e42e38baa093357b941aa64659684c88a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 05/40] fix: update the pool-service shares on trust changes
 even if the pool is not securing the service

---
 x/rewards/keeper/pool_service_shares.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index b5dfe43..c02e8d0 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -21,15 +21,6 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	}
 
 	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		isSecured, err := k.restakingKeeper.IsServiceSecuredByPool(ctx, serviceID, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		if !isSecured {
-			return false, nil
-		}
-
 		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
 		if err != nil {
 			return true, err
-- 
2.43.0


From d3fea83c1804fda07d6be4f0dee7ae624aef38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 06/40] fix: update the pool-service shares of all the pool
 delegators when a service accreditation changes

---
 x/rewards/keeper/hooks.go     | 51 +++++++++++++++++++++++------------
 x/services/keeper/services.go | 11 ++++----
 x/services/types/hooks.go     |  2 +-
 3 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index ff1e17c..10b3b58 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -131,7 +131,9 @@ func (k *Keeper) AfterDelegationModified(ctx context.Context, delType restakingt
 	return nil
 }
 
-// AfterServiceAccreditationModified implements servicestypes.ServicesHooks
+// AfterServiceAccreditationModified implements servicestypes.ServicesHooks.
+// The service still has its previous accreditation status when this is called, so
+// that the rewards accrued so far are withdrawn using the previous trust status.
 func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error {
 	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
 	if err != nil {
@@ -142,33 +144,48 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 		return servicestypes.ErrServiceNotFound
 	}
 
-	err = k.restakingKeeper.IterateServiceDelegations(ctx, serviceID, func(del restakingtypes.Delegation) (stop bool, err error) {
-		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+	// Clone the service and invert the accreditation status to get the new state
+	serviceAfter := service
+	serviceAfter.Accredited = !serviceAfter.Accredited
+
+	users, err := k.getPoolDelegators(ctx)
+	if err != nil {
+		return err
+	}
+
+	for _, user := range users {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, user)
 		if err != nil {
-			return true, err
+			return err
 		}
 
-		// Clone the service and invert the accreditation status to get the
-		// previous state
-		serviceBefore := service
-		serviceBefore.Accredited = !serviceBefore.Accredited
-
-		trustedBefore := preferences.IsServiceTrusted(serviceBefore)
-		trustedAfter := preferences.IsServiceTrusted(service)
+		trustedBefore := preferences.IsServiceTrusted(service)
+		trustedAfter := preferences.IsServiceTrusted(serviceAfter)
 		if trustedBefore != trustedAfter {
-			err = k.AfterUserTrustedServiceUpdated(ctx, del.UserAddress, service.ID, trustedAfter)
+			err = k.AfterUserTrustedServiceUpdated(ctx, user, service.ID, trustedAfter)
 			if err != nil {
-				return true, err
+				return err
 			}
 		}
-		return false, nil
-	})
-	if err != nil {
-		return err
 	}
+
 	return nil
 }
 
+// getPoolDelegators returns the addresses of the users having at least one pool delegation
+func (k *Keeper) getPoolDelegators(ctx context.Context) ([]string, error) {
+	var users []string
+	found := map[string]struct{}{}
+	err := k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		if _, ok := found[del.UserAddress]; !ok {
+			found[del.UserAddress] = struct{}{}
+			users = append(users, del.UserAddress)
+		}
+		return false, nil
+	})
+	return users, err
+}
+
 // AfterUserPreferencesModified is called after a user's trust in a service is
 // updated. It updates the total delegator shares for the service in all pools
 // where the user has a delegation.
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index d0c74c9..847e58a 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -173,15 +173,16 @@ func (k *Keeper) SetServiceAccredited(ctx context.Context, serviceID uint32, acc
 		return nil
 	}
 
-	// Update the service accreditation status
-	service.Accredited = accredited
-	err = k.SaveService(ctx, service)
+	// Call the hook before storing the new status, so that the hooks can settle what
+	// has been accrued so far using the previous one
+	err = k.AfterServiceAccreditationModified(ctx, service.ID)
 	if err != nil {
 		return err
 	}
 
-	// Call the hook
-	return k.AfterServiceAccreditationModified(ctx, service.ID)
+	// Update the service accreditation status
+	service.Accredited = accredited
+	return k.SaveService(ctx, service)
 }
 
 // HasService checks if a Service with the given ID exists in the KVStore
diff --git a/x/services/types/hooks.go b/x/services/types/hooks.go
index 33c5069..a79b7af 100644
--- a/x/services/types/hooks.go
+++ b/x/services/types/hooks.go
@@ -17,7 +17,7 @@ type ServicesHooks interface {
 	AfterServiceCreated(ctx context.Context, serviceID uint32) error               // Must be called after a service is created
 	AfterServiceActivated(ctx context.Context, serviceID uint32) error             // Must be called after a service is registered
 	AfterServiceDeactivated(ctx context.Context, serviceID uint32) error           // Must be called after a service is deregistered
-	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called after a service accreditation is changed
+	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called when a service accreditation is changed, before storing the new status
 	BeforeServiceDeleted(ctx context.Context, serviceID uint32) error              // Must be called before a service is deleted
 }
 
-- 
2.43.0


From 6c63726c7b283eab880b6550f850bfc0414118d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 07/40] fix: account for the existing pool delegations when a
 service is created

---
 x/rewards/keeper/pool_service_shares.go | 29 +++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go      |  7 +++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index c02e8d0..7392835 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -4,6 +4,7 @@ import (
 	"context"
 
 	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
+	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
 // AfterUserTrustedServiceUpdated is called after a user's trust in a service is
@@ -50,3 +51,31 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 		return false, nil
 	})
 }
+
+// initializePoolServiceTotalDelegatorShares initializes the total delegator shares of
+// a newly created service, accounting for the pool delegations of the users that already
+// trust it with their current preferences.
+func (k *Keeper) initializePoolServiceTotalDelegatorShares(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+		if err != nil {
+			return true, err
+		}
+
+		if !preferences.IsServiceTrusted(service) {
+			return false, nil
+		}
+
+		err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+		return err != nil, err
+	})
+}
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index d36a5ae..97792d5 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -19,7 +19,12 @@ func (k *Keeper) ServicesHooks() ServicesHooks {
 
 // AfterServiceCreated implements servicestypes.ServicesHooks
 func (h ServicesHooks) AfterServiceCreated(ctx context.Context, serviceID uint32) error {
-	return h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	err := h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+
+	return h.k.initializePoolServiceTotalDelegatorShares(ctx, serviceID)
 }
 
 // AfterServiceActivated implements servicestypes.ServicesHooks
-- 
2.43.0


From 8f054847391704d03bb143ab33b2700e2ee66578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:52 +0000
Subject: [PATCH 08/40] fix: withdraw the pool rewards earned from a service
 before deleting it

---
 x/rewards/keeper/pool_service_shares.go | 37 +++++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go      |  5 ++++
 2 files changed, 42 insertions(+)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index 7392835..323428e 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -79,3 +79,40 @@ func (k *Keeper) initializePoolServiceTotalDelegatorShares(ctx context.Context,
 		return err != nil, err
 	})
 }
+
+// withdrawServicePoolsRewards withdraws the pool rewards of all the users that trust the
+// given service. Once a service is deleted, the rewards earned from it through
+// the pools can no longer be withdrawn.
+func (k *Keeper) withdrawServicePoolsRewards(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	users, err := k.getPoolDelegators(ctx)
+	if err != nil {
+		return err
+	}
+
+	for _, user := range users {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, user)
+		if err != nil {
+			return err
+		}
+
+		if !preferences.IsServiceTrusted(service) {
+			continue
+		}
+
+		err = k.AfterUserTrustedServiceUpdated(ctx, user, serviceID, false)
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index 97792d5..e193d2a 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -39,6 +39,11 @@ func (h ServicesHooks) AfterServiceDeactivated(context.Context, uint32) error {
 
 // BeforeServiceDeleted implements servicestypes.ServicesHooks
 func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	err := h.k.withdrawServicePoolsRewards(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From 12d4e0dbb4731de59b86bcc1c4b266e101cb1eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 09/40] fix: terminate the rewards plans of a service when it
 is deleted

---
 x/rewards/keeper/rewards_plan.go   | 23 +++++++++++++++++++++++
 x/rewards/keeper/services_hooks.go |  6 ++++++
 2 files changed, 29 insertions(+)

diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 3eda7d4..2fdb66f 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -188,6 +188,29 @@ func (k *Keeper) TerminateEndedRewardsPlans(ctx context.Context) error {
 	})
 }
 
+// terminateServiceRewardsPlans terminates all the rewards plans of the given service.
+func (k *Keeper) terminateServiceRewardsPlans(ctx context.Context, serviceID uint32) error {
+	var plans []types.RewardsPlan
+	err := k.RewardsPlans.Walk(ctx, nil, func(_ uint64, plan types.RewardsPlan) (stop bool, err error) {
+		if plan.ServiceID == serviceID {
+			plans = append(plans, plan)
+		}
+		return false, nil
+	})
+	if err != nil {
+		return err
+	}
+
+	for _, plan := range plans {
+		err = k.terminateRewardsPlan(ctx, plan)
+		if err != nil {
+			return err
+		}
+	}
+
+	return nil
+}
+
 // EditRewardsPlan edits an existing rewards plan.
 func (k *Keeper) EditRewardsPlan(
 	ctx context.Context,
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index e193d2a..c8ab46e 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -44,6 +44,12 @@ func (h ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint3
 		return err
 	}
 
+	// The rewards plans can't outlive their service
+	err = h.k.terminateServiceRewardsPlans(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
 	return h.k.BeforeDelegationTargetRemoved(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
 }
 
-- 
2.43.0


From 172848ec266d777181b2462002cae6a7653aa85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:50 +0000
Subject: [PATCH 10/40] fix: avoid the overflow of the total distribution
 weight of a rewards plan

---
 x/rewards/keeper/allocation.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 09330e4..9de4a78 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -248,15 +248,15 @@ func (k *Keeper) AllocateRewardsByPlan(
 	}
 
 	// Only sum weights with non-zero delegation values.
-	totalWeightsNonZeroDelValues := uint32(0)
+	totalWeightsNonZeroDelValues := uint64(0)
 	if totalPoolsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.PoolsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.PoolsDistribution.Weight)
 	}
 	if totalOperatorsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.OperatorsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.OperatorsDistribution.Weight)
 	}
 	if totalUsersDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.UsersDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.UsersDistribution.Weight)
 	}
 
 	var poolsRewards, operatorsRewards, usersRewards sdk.DecCoins
-- 
2.43.0


From 33fa39d29e4231c80020dbedd4ee93bafebaca76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 11/40] fix: take the rewards from the plan only when they are
 going to be distributed

---
 x/rewards/keeper/allocation.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 9de4a78..8140a2c 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -191,12 +191,6 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
-	// Send the current block's rewards to the global rewards pool.
-	err := k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
-	if err != nil {
-		return err
-	}
-
 	service, found, err := k.servicesKeeper.GetService(ctx, plan.ServiceID)
 	if err != nil {
 		return err
@@ -247,6 +241,12 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
+	// Send the current block's rewards to the global rewards pool.
+	err = k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
+	if err != nil {
+		return err
+	}
+
 	// Only sum weights with non-zero delegation values.
 	totalWeightsNonZeroDelValues := uint64(0)
 	if totalPoolsDelValues.IsPositive() {
-- 
2.43.0


From d2ac989b1074c7c632603be35d72ed42fe83c182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:16 +0000
Subject: [PATCH 12/40] fix: distribute the rewards based on the restakable
 denoms when the service allows any denom

---
 x/rewards/keeper/allocation.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 8140a2c..0654fa8 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -146,6 +146,9 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 				)
 				return false, nil
 			}
+		} else {
+			// The service params are not set: use the global restakable denoms
+			serviceRestakableDenoms = restakableDenoms
 		}
 
 		err = k.AllocateRewardsByPlan(ctx, plan, timeSinceLastAllocation, pools, operators, serviceRestakableDenoms)
-- 
2.43.0


From 5f4bf39b800462d115f30887065039184ee581a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:10 +0000
Subject: [PATCH 13/40] fix: allocate the rewards of a target only to its
 restakable tokens

---
 x/rewards/keeper/allocation.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 0654fa8..b29d443 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -25,6 +25,7 @@ import (
 // delegation value.
 type DistributionInfo struct {
 	DelegationTarget DelegationTarget
+	RestakableTokens sdk.Coins
 	DelegationsValue math.LegacyDec
 }
 
@@ -298,6 +299,7 @@ func (k *Keeper) AllocateRewardsByPlan(
 			ctx,
 			plan.UsersDistribution,
 			service,
+			tokensDelegatedToService,
 			totalUsersDelValues,
 			usersRewards,
 		)
@@ -419,6 +421,7 @@ func (k *Keeper) getDistrInfos(
 
 		distrInfos = append(distrInfos, DistributionInfo{
 			DelegationTarget: target,
+			RestakableTokens: targetTokens,
 			DelegationsValue: delValue,
 		})
 		totalDelValues = totalDelValues.Add(delValue)
@@ -540,6 +543,7 @@ func (k *Keeper) allocateRewardsToUsers(
 	ctx context.Context,
 	distr types.UsersDistribution,
 	service servicestypes.Service,
+	restakableTokens sdk.Coins,
 	totalDelValues math.LegacyDec,
 	rewards sdk.DecCoins,
 ) error {
@@ -556,6 +560,7 @@ func (k *Keeper) allocateRewardsToUsers(
 		}
 		return k.allocateDelegationTargetRewards(ctx, service.ID, DistributionInfo{
 			DelegationTarget: target,
+			RestakableTokens: restakableTokens,
 			DelegationsValue: totalDelValues,
 		}, rewards)
 	default:
@@ -567,7 +572,7 @@ func (k *Keeper) allocateRewardsToUsers(
 func (k *Keeper) allocateDelegationTargetRewards(
 	ctx context.Context, serviceID uint32, distrInfo DistributionInfo, rewards sdk.DecCoins,
 ) error {
-	for _, token := range distrInfo.DelegationTarget.GetTokens() {
+	for _, token := range distrInfo.RestakableTokens {
 		tokenValue, err := k.GetCoinValue(ctx, token)
 		if err != nil {
 			return err
-- 
2.43.0


From a9436da1d0223274361e5696b5a7a50d4a7cdd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 14/40] fix: send the commission of a deleted operator from the
 rewards pool

---
 x/rewards/keeper/target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/rewards/keeper/target.go b/x/rewards/keeper/target.go
index 1737ee0..a85d5d3 100644
--- a/x/rewards/keeper/target.go
+++ b/x/rewards/keeper/target.go
@@ -352,7 +352,7 @@ func (k *Keeper) clearOperator(ctx context.Context, outstanding sdk.DecCoins, op
 				return outstanding, err
 			}
 
-			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.ModuleName, withdrawAddr, coins)
+			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.RewardsPoolName, withdrawAddr, coins)
 			if err != nil {
 				return outstanding, err
 			}
-- 
2.43.0


From 35b16472c3ac570f673eac7bcc24eb37acab086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 15/40] fix: send the commission of a deleted operator to its
 admin

---
 x/rewards/keeper/alias_functions.go | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/x/rewards/keeper/alias_functions.go b/x/rewards/keeper/alias_functions.go
index 568393b..0bf1dcd 100644
--- a/x/rewards/keeper/alias_functions.go
+++ b/x/rewards/keeper/alias_functions.go
@@ -69,30 +69,15 @@ func (k *Keeper) DeleteOperatorAccumulatedCommission(ctx context.Context, operat
 	return k.OperatorAccumulatedCommissions.Remove(ctx, operatorID)
 }
 
-// GetOperatorWithdrawAddr returns the outstanding rewards coins for an operator
+// GetOperatorWithdrawAddr returns the address that receives the commission of an operator
 func (k *Keeper) GetOperatorWithdrawAddr(ctx context.Context, operator operatorstypes.Operator) (sdk.AccAddress, error) {
-	// Try getting a custom withdraw address
-	operatorAddr, err := sdk.AccAddressFromBech32(operator.Address)
-	if err != nil {
-		return nil, err
-	}
-
-	withdrawAddr, err := k.GetDelegatorWithdrawAddr(ctx, operatorAddr)
-	if err != nil {
-		return nil, err
-	}
-
-	if withdrawAddr != nil {
-		return withdrawAddr, nil
-	}
-
-	// By default, use the operator admin address as the withdraw address
+	// The commission belongs to the operator admin
 	adminAddress, err := sdk.AccAddressFromBech32(operator.Admin)
 	if err != nil {
 		return nil, err
 	}
 
-	return adminAddress, nil
+	return k.GetDelegatorWithdrawAddr(ctx, adminAddress)
 }
 
 // GetDelegatorWithdrawAddr returns the delegator's withdraw address if set, otherwise the delegator address is returned.
-- 
2.43.0


From ce2b7b4ee5267bee264259f38e2c1ecabda6beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 16/40] fix: check the allowed operators of the right service
 in the service operators query

---
 x/restaking/keeper/grpc_query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 7c63b28..06dfd1c 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -140,7 +140,7 @@ func (k Querier) ServiceOperators(ctx context.Context, req *types.QueryServiceOp
 			// Here is k2 the operator id since the Service index provides association
 			// between a service and the operator securing it
 			operatorID := key.K2()
-			return k.CanOperatorValidateService(ctx, operatorID, req.ServiceId)
+			return k.CanOperatorValidateService(ctx, req.ServiceId, operatorID)
 		},
 		func(key collections.Pair[uint32, uint32], _ collections.NoValue) (operatorstypes.Operator, error) {
 			// Here is k2 the operator id since the Service index provides association
-- 
2.43.0


From 384ea91309a7939852385667ac128971bde78596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 17/40] fix: return only the unbonding delegations of the
 queried target

---
 x/restaking/keeper/grpc_query.go | 48 ++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 06dfd1c..92dfeb6 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -254,13 +254,21 @@ func (k Querier) PoolUnbondingDelegations(ctx context.Context, req *types.QueryP
 
 	// Query the pool unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+
+		// Skip the unbonding delegations of the other targets
+		if unbond.TargetID != req.PoolId {
+			return false, nil
+		}
+
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
@@ -393,13 +401,21 @@ func (k Querier) OperatorUnbondingDelegations(ctx context.Context, req *types.Qu
 
 	// Query the operator unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+
+		// Skip the unbonding delegations of the other targets
+		if unbond.TargetID != req.OperatorId {
+			return false, nil
+		}
+
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
@@ -532,13 +548,21 @@ func (k Querier) ServiceUnbondingDelegations(ctx context.Context, req *types.Que
 
 	// Query the service unbonding delegations for the given pool id
 	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
+	pageRes, err := query.FilteredPaginate(delegationsStore, req.Pagination, func(key []byte, value []byte, accumulate bool) (bool, error) {
 		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
 		if err != nil {
-			return err
+			return false, err
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+
+		// Skip the unbonding delegations of the other targets
+		if unbond.TargetID != req.ServiceId {
+			return false, nil
+		}
+
+		if accumulate {
+			unbondingDelegations = append(unbondingDelegations, unbond)
+		}
+		return true, nil
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
-- 
2.43.0


From cd7c7bfe7303826832bf726c7064fcf4f13ca09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:34 +0000
Subject: [PATCH 18/40] fix: look up the allowed operators by their own id in
 the allowed operators invariant

---
 x/restaking/keeper/invariants.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/restaking/keeper/invariants.go b/x/restaking/keeper/invariants.go
index 606a7e8..538f47f 100644
--- a/x/restaking/keeper/invariants.go
+++ b/x/restaking/keeper/invariants.go
@@ -373,8 +373,8 @@ func AllowedOperatorsExistInvariant(k *Keeper) sdk.Invariant {
 	return func(ctx sdk.Context) (string, bool) {
 		// Iterate over all the services joined by operators
 		var notFoundOperatorsIDs []uint32
-		err := k.IterateAllServicesAllowedOperators(ctx, func(serviceID uint32, operatorID uint32) (stop bool, err error) {
-			_, found, err := k.operatorsKeeper.GetOperator(ctx, serviceID)
+		err := k.IterateAllServicesAllowedOperators(ctx, func(_ uint32, operatorID uint32) (stop bool, err error) {
+			_, found, err := k.operatorsKeeper.GetOperator(ctx, operatorID)
 			if err != nil {
 				return true, err
 			}
-- 
2.43.0


From 8097e49ac1de3db24b87524e36db177973b43138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 19/40] fix: remove the index of the previous ticker when an
 asset is updated

---
 x/assets/keeper/assets.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/x/assets/keeper/assets.go b/x/assets/keeper/assets.go
index c6e0afa..d4fb7b0 100644
--- a/x/assets/keeper/assets.go
+++ b/x/assets/keeper/assets.go
@@ -4,12 +4,24 @@ import (
 	"context"
 
 	"cosmossdk.io/collections"
+	"cosmossdk.io/errors"
 
 	"github.com/milkyway-labs/milkyway/v3/x/assets/types"
 )
 
 // SetAsset stores an asset in the store
 func (k *Keeper) SetAsset(ctx context.Context, asset types.Asset) error {
+	// Remove the ticker index of the previous asset, if any
+	previous, err := k.Assets.Get(ctx, asset.Denom)
+	if err != nil && !errors.IsOf(err, collections.ErrNotFound) {
+		return err
+	}
+	if err == nil {
+		if err := k.TickerIndexes.Remove(ctx, collections.Join(previous.Ticker, previous.Denom)); err != nil {
+			return err
+		}
+	}
+
 	if err := k.Assets.Set(ctx, asset.Denom, asset); err != nil {
 		return err
 	}
-- 
2.43.0


From 2ed7a50d8bfa053622f5a112b9b2f9614672f5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:42 +0000
Subject: [PATCH 20/40] fix: unbond multiple denoms when the user has delegated
 only some of them to a target

---
 x/restaking/keeper/alias_functions.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index ae6a80e..cee37a3 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -850,9 +850,15 @@ func (k *Keeper) UnbondRestakedAssets(ctx context.Context, user sdk.AccAddress,
 			return false, nil
 		}
 
+		// Consider only the tokens that have been delegated to the target
+		targetTokens := utils.FilterDecCoinsByDenom(toUndelegateTokens, sdk.NewDecCoinsFromCoins(target.GetTokens()...))
+		if len(targetTokens) == 0 {
+			return false, nil
+		}
+
 		// Compute the shares that this delegation should have to undelegate
 		// all the remaining tokens
-		involvedShares, err := target.SharesFromDecCoins(toUndelegateTokens)
+		involvedShares, err := target.SharesFromDecCoins(targetTokens)
 		if err != nil {
 			return true, err
 		}
-- 
2.43.0


From 1bbdefbff8e584ef8535da5b42665cdf079da817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 21/40] fix: deposit the right denom in the insurance fund when
 the tokens return to this chain

---
 x/liquidvesting/keeper/ibc.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index 3769463..be11341 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -65,12 +65,18 @@ func (k *Keeper) OnRecvPacket(
 
 	// Deposit the amounts into the users' insurance fund
 	for _, deposit := range msgDepositInsurance.Amounts {
-		// Convert the coin denom to its IBC representation
-		sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
-		// NOTE: sourcePrefix contains the trailing "/"
-		prefixedDenom := sourcePrefix + data.Denom
+		var receivedDenom string
+		if transfertypes.ReceiverChainIsSource(packet.GetSourcePort(), packet.GetSourceChannel(), data.Denom) {
+			// The tokens are returning to this chain, remove the prefix added by the sender chain
+			voucherPrefix := transfertypes.GetDenomPrefix(packet.GetSourcePort(), packet.GetSourceChannel())
+			receivedDenom = data.Denom[len(voucherPrefix):]
+		} else {
+			// Convert the coin denom to its IBC representation
+			// NOTE: the prefix contains the trailing "/"
+			receivedDenom = transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel()) + data.Denom
+		}
 		// construct the denomination trace from the full raw denomination
-		denomTrace := transfertypes.ParseDenomTrace(prefixedDenom)
+		denomTrace := transfertypes.ParseDenomTrace(receivedDenom)
 		// Convert the insurance deposit to its IBC representation
 		ibcCoin := sdk.NewCoin(denomTrace.IBCDenom(), deposit.Amount)
 
-- 
2.43.0


From 5a0c8032ad92a6a561bdc38c3e72c65094040c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:19 +0000
Subject: [PATCH 22/40] fix: do not call the user preferences hooks when
 importing the genesis

---
 x/restaking/keeper/genesis.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 2e197e7..c0df4aa 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -109,9 +109,15 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 		}
 	}
 
-	// Store the user preferences
+	// Store the user preferences without calling the hooks, as the modules
+	// using them import their own state
 	for _, entry := range data.UsersPreferences {
-		err := k.SetUserPreferences(ctx, entry.UserAddress, entry.Preferences)
+		err := entry.Preferences.Validate()
+		if err != nil {
+			return err
+		}
+
+		err = k.usersPreferences.Set(ctx, entry.UserAddress, entry.Preferences)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 0f2c4e667c49b246b02002ae6644ad3d07aa77cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:04 +0000
Subject: [PATCH 23/40] fix: restore the unbonding ids and their index when
 importing the genesis

---
 x/restaking/keeper/genesis.go | 18 +++++++++++++++++-
 x/restaking/keeper/unbond.go  | 16 +++++++++++-----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index c0df4aa..947a003 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -95,8 +95,9 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 	}
 
 	// Store the unbonding delegations
+	lastUnbondingID := uint64(0)
 	for _, ubd := range data.UnbondingDelegations {
-		_, err := k.SetUnbondingDelegation(ctx, ubd)
+		unbondingDelegationKey, err := k.SetUnbondingDelegation(ctx, ubd)
 		if err != nil {
 			return err
 		}
@@ -106,6 +107,21 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 			if err != nil {
 				return err
 			}
+
+			err = k.SetUnbondingDelegationByUnbondingID(ctx, ubd, unbondingDelegationKey, entry.UnbondingID)
+			if err != nil {
+				return err
+			}
+
+			lastUnbondingID = max(lastUnbondingID, entry.UnbondingID)
+		}
+	}
+
+	// Make sure the ids of the imported entries are not used again
+	if lastUnbondingID > 0 {
+		err := k.SetUnbondingID(ctx, lastUnbondingID)
+		if err != nil {
+			return err
 		}
 	}
 
diff --git a/x/restaking/keeper/unbond.go b/x/restaking/keeper/unbond.go
index 5ed8b49..3aa0e45 100644
--- a/x/restaking/keeper/unbond.go
+++ b/x/restaking/keeper/unbond.go
@@ -31,12 +31,8 @@ func (k *Keeper) IncrementUnbondingID(ctx context.Context) (unbondingID uint64,
 	// Increment the unbonding id
 	unbondingID++
 
-	// Convert back into bytes for storage
-	bz = make([]byte, 8)
-	binary.BigEndian.PutUint64(bz, unbondingID)
-
 	// Store the new unbonding id
-	err = store.Set(types.UnbondingIDKey, bz)
+	err = k.SetUnbondingID(ctx, unbondingID)
 	if err != nil {
 		return 0, err
 	}
@@ -44,6 +40,16 @@ func (k *Keeper) IncrementUnbondingID(ctx context.Context) (unbondingID uint64,
 	return unbondingID, nil
 }
 
+// SetUnbondingID sets the ID of the last unbonding operation
+func (k *Keeper) SetUnbondingID(ctx context.Context, unbondingID uint64) error {
+	// Convert into bytes for storage
+	bz := make([]byte, 8)
+	binary.BigEndian.PutUint64(bz, unbondingID)
+
+	store := k.storeService.OpenKVStore(ctx)
+	return store.Set(types.UnbondingIDKey, bz)
+}
+
 // DeleteUnbondingIndex removes a mapping from UnbondingId to unbonding operation
 func (k *Keeper) DeleteUnbondingIndex(ctx context.Context, id uint64) error {
 	store := k.storeService.OpenKVStore(ctx)
-- 
2.43.0


From 11c23bb4da63e60fa17cd5b6211b3f10aa178e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 24/40] fix: reject the insurance deposits without an amount

---
 x/liquidvesting/types/ibc_hooks.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/x/liquidvesting/types/ibc_hooks.go b/x/liquidvesting/types/ibc_hooks.go
index f5ab1b5..480b172 100644
--- a/x/liquidvesting/types/ibc_hooks.go
+++ b/x/liquidvesting/types/ibc_hooks.go
@@ -20,6 +20,10 @@ func (i *InsuranceDeposit) ValidateBasic() error {
 		return fmt.Errorf("invalid depositor address: %s", err)
 	}
 
+	if i.Amount.IsNil() {
+		return fmt.Errorf("amount cannot be empty")
+	}
+
 	if i.Amount.IsNegative() {
 		return fmt.Errorf("amount cannot be negative")
 	}
-- 
2.43.0


From 5c7f9a191987bceb158aff40d19302b285a7bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:20 +0000
Subject: [PATCH 25/40] fix: allow importing a genesis in which the liquid
 vesting account holds extra coins

---
 x/liquidvesting/keeper/genesis.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index cc39266..01f63db 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -72,13 +72,13 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		}
 	}
 
-	// Ensure that the balance of the liquid vesting module is equal to the
+	// Ensure that the balance of the liquid vesting module is enough to cover the
 	// sum of the users' insurance fund
 	coins, err := k.GetInsuranceFundBalance(ctx)
 	if err != nil {
 		return err
 	}
-	if !coins.Equal(totalCoins) {
+	if !coins.IsAllGTE(totalCoins) {
 		return fmt.Errorf("the liquid vesting module doesn't have the coins specified in the users' insurance fund")
 	}
 
-- 
2.43.0


From 9b7833493ad1fab36e6b42cc5ee77772b511920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:01 +0000
Subject: [PATCH 26/40] fix: reject the rewards plans whose amount per day can
 overflow the rewards allocation

---
 x/rewards/types/models.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/x/rewards/types/models.go b/x/rewards/types/models.go
index cfb43cf..414cbf4 100644
--- a/x/rewards/types/models.go
+++ b/x/rewards/types/models.go
@@ -18,6 +18,11 @@ import (
 // MaxRewardsPlanDescriptionLength is the maximum length of a rewards plan description.
 const MaxRewardsPlanDescriptionLength = 1000
 
+// MaxAmountPerDayBitLen is the maximum bit length of the amounts distributed per day by a
+// rewards plan. It makes sure that the allocation of the rewards, which is
+// performed at the beginning of each block, can never overflow.
+const MaxAmountPerDayBitLen = 128
+
 var (
 	_ DistributionType      = (*DistributionTypeBasic)(nil)
 	_ DistributionType      = (*DistributionTypeWeighted)(nil)
@@ -92,6 +97,12 @@ func (plan RewardsPlan) Validate(unpacker codectypes.AnyUnpacker) error {
 		return fmt.Errorf("invalid amount per day: %w", err)
 	}
 
+	for _, coin := range plan.AmountPerDay {
+		if coin.Amount.BigInt().BitLen() > MaxAmountPerDayBitLen {
+			return fmt.Errorf("too large amount per day: %s", coin)
+		}
+	}
+
 	if !plan.EndTime.After(plan.StartTime) {
 		return fmt.Errorf(
 			"end time must be after start time: %s <= %s",
-- 
2.43.0


From a16ac71ff8a7047c26f8d4cff128743c9bdbfe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 27/40] fix: value the tokens of the assets with an exponent
 greater than 18 correctly

---
 x/assets/types/models.go   | 7 +++++++
 x/rewards/keeper/oracle.go | 3 +--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/x/assets/types/models.go b/x/assets/types/models.go
index a8eb6e6..bde11b4 100644
--- a/x/assets/types/models.go
+++ b/x/assets/types/models.go
@@ -6,6 +6,9 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
 
+// MaxExponent represents the maximum exponent that an asset can have
+const MaxExponent = 36
+
 // NewAsset returns a new Asset instance
 func NewAsset(denom, ticker string, exponent uint32) Asset {
 	return Asset{
@@ -27,5 +30,9 @@ func (asset *Asset) Validate() error {
 		return fmt.Errorf("invalid ticker: %w", err)
 	}
 
+	if asset.Exponent > MaxExponent {
+		return fmt.Errorf("invalid exponent: %d is greater than %d", asset.Exponent, MaxExponent)
+	}
+
 	return nil
 }
diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 388a7c6..bb6f900 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	stdmath "math"
 
 	"cosmossdk.io/collections"
 	"cosmossdk.io/errors"
@@ -55,7 +54,7 @@ func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDe
 		return math.LegacyZeroDec(), nil
 	}
 
-	return price.MulInt(coin.Amount).QuoInt64(int64(stdmath.Pow10(int(asset.Exponent)))), nil
+	return price.MulInt(coin.Amount).QuoInt(math.NewIntWithDecimal(1, int(asset.Exponent))), nil
 }
 
 func (k *Keeper) GetCoinsValue(ctx context.Context, coins sdk.Coins) (math.LegacyDec, error) {
-- 
2.43.0


From 98752d93b50763917f7fa33b8a0b72811562ff05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:00 +0000
Subject: [PATCH 28/40] fix: create the liquid vesting module account when
 initializing the genesis

---
 x/liquidvesting/keeper/genesis.go         | 4 ++++
 x/liquidvesting/types/expected_keepers.go | 1 +
 2 files changed, 5 insertions(+)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index 01f63db..ad306d2 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -34,6 +34,10 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		return err
 	}
 
+	// Ensure that the module account exists: it can receive coins from anyone, and if that happened
+	// before its creation a normal account would be created at its address
+	k.accountKeeper.GetModuleAccount(ctx, types.ModuleName)
+
 	// Store the params
 	err = k.SetParams(ctx, state.Params)
 	if err != nil {
diff --git a/x/liquidvesting/types/expected_keepers.go b/x/liquidvesting/types/expected_keepers.go
index 6b50d41..4347a23 100644
--- a/x/liquidvesting/types/expected_keepers.go
+++ b/x/liquidvesting/types/expected_keepers.go
@@ -13,6 +13,7 @@ import (
 
 type AccountKeeper interface {
 	AddressCodec() address.Codec
+	GetModuleAccount(ctx context.Context, moduleName string) sdk.ModuleAccountI
 }
 
 type BankKeeper interface {
-- 
2.43.0


From adf49613f1b43b87ba030bdc4c34c606635a026e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:02 +0000
Subject: [PATCH 29/40] fix: require the minimum stake for weighted votes too

---
 ante/gov_vote_ante.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index 0da4081..ac4755c 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -72,6 +72,16 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 			if err != nil {
 				return err
 			}
+		case *govv1beta1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
+		case *govv1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		default:
 			// not a vote message - nothing to validate
 			return nil
-- 
2.43.0


From 114804e3a75f8d048c4f6e8b8555beb644c63ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:25 +0000
Subject: [PATCH 30/40] fix: check the stake of the voter also for votes nested
 in several MsgExec

---
 ante/gov_vote_ante.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index ac4755c..15acf1d 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -124,12 +124,20 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 		return nil
 	}
 
-	validAuthz := func(execMsg *authz.MsgExec) error {
+	var validAuthz func(execMsg *authz.MsgExec) error
+	validAuthz = func(execMsg *authz.MsgExec) error {
 		for _, v := range execMsg.Msgs {
 			var innerMsg sdk.Msg
 			if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
 				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
 			}
+			// the executed message can be a nested MsgExec
+			if innerExec, ok := innerMsg.(*authz.MsgExec); ok {
+				if err := validAuthz(innerExec); err != nil {
+					return err
+				}
+				continue
+			}
 			if err := validMsg(innerMsg); err != nil {
 				return err
 			}
-- 
2.43.0


From 686b498719f416eea73fa1c25b5630d13365e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 31/40] fix: check the expedited proposals submitted through
 authz too

---
 ante/gov_expedited_ante.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/ante/gov_expedited_ante.go b/ante/gov_expedited_ante.go
index b6282aa..7675a2e 100644
--- a/ante/gov_expedited_ante.go
+++ b/ante/gov_expedited_ante.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/cosmos/cosmos-sdk/codec"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	"github.com/cosmos/cosmos-sdk/x/authz"
 	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
 
 	milkywayerrors "github.com/milkyway-labs/milkyway/v3/types/errors"
@@ -39,19 +40,35 @@ func NewGovExpeditedProposalsDecorator(cdc codec.BinaryCodec) GovExpeditedPropos
 // Legacy proposals submitted using "milkywayd tx gov submit-legacy-proposal" cannot be marked as expedited.
 func (g GovExpeditedProposalsDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (newCtx sdk.Context, err error) {
 	if expeditedPropDecoratorEnabled {
-		for _, msg := range tx.GetMsgs() {
-			prop, ok := msg.(*govv1.MsgSubmitProposal)
-			if !ok {
+		if err := g.validateMsgs(tx.GetMsgs()); err != nil {
+			return ctx, err
+		}
+	}
+	return next(ctx, tx, simulate)
+}
+
+// validateMsgs checks the expedited proposals among the given messages, including the ones submitted through authz.
+func (g GovExpeditedProposalsDecorator) validateMsgs(msgs []sdk.Msg) error {
+	for _, msg := range msgs {
+		switch msg := msg.(type) {
+		case *govv1.MsgSubmitProposal:
+			if !msg.Expedited {
 				continue
 			}
-			if prop.Expedited {
-				if err := g.validateExpeditedGovProp(prop); err != nil {
-					return ctx, err
-				}
+			if err := g.validateExpeditedGovProp(msg); err != nil {
+				return err
+			}
+		case *authz.MsgExec:
+			innerMsgs, err := msg.GetMessages()
+			if err != nil {
+				return err
+			}
+			if err := g.validateMsgs(innerMsgs); err != nil {
+				return err
 			}
 		}
 	}
-	return next(ctx, tx, simulate)
+	return nil
 }
 
 func (g GovExpeditedProposalsDecorator) isWhitelisted(msgType string) bool {
-- 
2.43.0


From f4a4e4d2fa0de8556855b14ca5f867863d7185b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:03 +0000
Subject: [PATCH 32/40] fix: drop the initial rewards records when importing
 the exported ones

The hooks called while importing pools, operators and services create the
period 0 historical record of each target. The genesis state of the module
replaces everything but that record, which breaks the reference count
invariant of the imported chain.
---
 x/rewards/keeper/genesis.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index af6b170..a029973 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -360,6 +360,15 @@ func (k *Keeper) initializeDelegationRecords(
 		totalOutstandingRewards = totalOutstandingRewards.Add(outstanding.OutstandingRewards.Sum()...)
 	}
 
+	// Remove the initial historical rewards set by the hooks when the targets were created,
+	// since they are replaced by the ones stored inside the genesis state
+	for _, historical := range records.HistoricalRewards {
+		err = historicalRewardsCollection.Remove(ctx, collections.Join(historical.DelegationTargetID, uint64(0)))
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// Store the historical rewards
 	for _, historical := range records.HistoricalRewards {
 		err = historicalRewardsCollection.Set(ctx, collections.Join(historical.DelegationTargetID, historical.Period), historical.Rewards)
-- 
2.43.0


From 9d155f747b65d4cec7bbc3bcd5e1810c19c32e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:12 +0000
Subject: [PATCH 33/40] fix: count all the outstanding rewards in the module
 account invariant

Only the outstanding rewards of the pools were compared with the balance
of the rewards pool, so that missing rewards of the delegators of operators
and services were never noticed.
---
 x/rewards/keeper/invariants.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/x/rewards/keeper/invariants.go b/x/rewards/keeper/invariants.go
index e89a773..f4e2119 100644
--- a/x/rewards/keeper/invariants.go
+++ b/x/rewards/keeper/invariants.go
@@ -350,12 +350,18 @@ func checkReferencesCount[T any](
 func ModuleAccountInvariant(k *Keeper) sdk.Invariant {
 	return func(ctx sdk.Context) (string, bool) {
 		var expectedCoins sdk.DecCoins
-		err := k.PoolOutstandingRewards.Walk(ctx, nil, func(_ uint32, rewards types.OutstandingRewards) (stop bool, err error) {
-			expectedCoins = expectedCoins.Add(rewards.Rewards.Sum()...)
-			return false, nil
-		})
-		if err != nil {
-			return sdk.FormatInvariant(types.ModuleName, "module account coins", err.Error()), true
+		for _, outstandingRewards := range []collections.Map[uint32, types.OutstandingRewards]{
+			k.PoolOutstandingRewards,
+			k.OperatorOutstandingRewards,
+			k.ServiceOutstandingRewards,
+		} {
+			err := outstandingRewards.Walk(ctx, nil, func(_ uint32, rewards types.OutstandingRewards) (stop bool, err error) {
+				expectedCoins = expectedCoins.Add(rewards.Rewards.Sum()...)
+				return false, nil
+			})
+			if err != nil {
+				return sdk.FormatInvariant(types.ModuleName, "module account coins", err.Error()), true
+			}
 		}
 
 		expectedInt, _ := expectedCoins.TruncateDecimal()
-- 
2.43.0


From b6fe15e7f2efdb696a0789b3cb53f52e5328c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 34/40] fix: identify the users by their canonical address

Bech32 addresses can be written in upper case too, so the same account could
have two delegations to the same target, overwriting each other's rewards
records, and insurance funds nobody could use.
---
 x/liquidvesting/keeper/ibc.go        | 10 +++-
 x/liquidvesting/keeper/msg_server.go | 13 +++--
 x/restaking/keeper/msg_server.go     | 74 ++++++++++++++++++++++------
 3 files changed, 78 insertions(+), 19 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index be11341..c1a0e98 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -80,7 +80,13 @@ func (k *Keeper) OnRecvPacket(
 		// Convert the insurance deposit to its IBC representation
 		ibcCoin := sdk.NewCoin(denomTrace.IBCDenom(), deposit.Amount)
 
-		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(ibcCoin))
+		// NOTE: use the canonical address, as Bech32 allows both lower and upper case
+		depositor, err := sdk.AccAddressFromBech32(deposit.Depositor)
+		if err != nil {
+			return err
+		}
+
+		err = k.AddToUserInsuranceFund(ctx, depositor.String(), sdk.NewCoins(ibcCoin))
 		if err != nil {
 			return err
 		}
@@ -88,7 +94,7 @@ func (k *Keeper) OnRecvPacket(
 		// Dispatch the deposit event.
 		ctx.EventManager().EmitEvent(
 			sdk.NewEvent(types.EventTypeDepositToUserInsuranceFund,
-				sdk.NewAttribute(types.AttributeKeyUser, deposit.Depositor),
+				sdk.NewAttribute(types.AttributeKeyUser, depositor.String()),
 				sdk.NewAttribute(sdk.AttributeKeyAmount, amount.String()),
 			),
 		)
diff --git a/x/liquidvesting/keeper/msg_server.go b/x/liquidvesting/keeper/msg_server.go
index 4cfd67e..36b7685 100644
--- a/x/liquidvesting/keeper/msg_server.go
+++ b/x/liquidvesting/keeper/msg_server.go
@@ -100,7 +100,14 @@ func (m msgServer) BurnLockedRepresentation(ctx context.Context, msg *types.MsgB
 
 // WithdrawInsuranceFund implements types.MsgServer.
 func (m msgServer) WithdrawInsuranceFund(ctx context.Context, msg *types.MsgWithdrawInsuranceFund) (*types.MsgWithdrawInsuranceFundResponse, error) {
-	canWithdraw, err := m.CanWithdrawFromInsuranceFund(ctx, msg.Sender, msg.Amount)
+	sender, err := sdk.AccAddressFromBech32(msg.Sender)
+	if err != nil {
+		return nil, err
+	}
+
+	// NOTE: use the canonical address, as Bech32 allows both lower and upper case
+	user := sender.String()
+	canWithdraw, err := m.CanWithdrawFromInsuranceFund(ctx, user, msg.Amount)
 	if err != nil {
 		return nil, err
 	}
@@ -110,7 +117,7 @@ func (m msgServer) WithdrawInsuranceFund(ctx context.Context, msg *types.MsgWith
 	}
 
 	// Send the tokens back to the user
-	err = m.WithdrawFromUserInsuranceFund(ctx, msg.Sender, msg.Amount)
+	err = m.WithdrawFromUserInsuranceFund(ctx, user, msg.Amount)
 	if err != nil {
 		return nil, err
 	}
@@ -119,7 +126,7 @@ func (m msgServer) WithdrawInsuranceFund(ctx context.Context, msg *types.MsgWith
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeWithdrawInsuranceFund,
-			sdk.NewAttribute(sdk.AttributeKeySender, msg.Sender),
+			sdk.NewAttribute(sdk.AttributeKeySender, user),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 		),
 	})
diff --git a/x/restaking/keeper/msg_server.go b/x/restaking/keeper/msg_server.go
index bfab594..4806dc3 100644
--- a/x/restaking/keeper/msg_server.go
+++ b/x/restaking/keeper/msg_server.go
@@ -28,6 +28,17 @@ func NewMsgServer(keeper *Keeper) types.MsgServer {
 	return &msgServer{Keeper: keeper}
 }
 
+// canonicalAddress returns the canonical spelling of the given address. Since Bech32 allows the same address to be
+// written both in lower and upper case, addresses must be converted before being used to identify a user.
+func (k msgServer) canonicalAddress(address string) (string, error) {
+	bz, err := k.accountKeeper.AddressCodec().StringToBytes(address)
+	if err != nil {
+		return "", err
+	}
+
+	return k.accountKeeper.AddressCodec().BytesToString(bz)
+}
+
 // JoinService defines the rpc method for Msg/JoinService
 func (k msgServer) JoinService(ctx context.Context, msg *types.MsgJoinService) (*types.MsgJoinServiceResponse, error) {
 	operator, found, err := k.operatorsKeeper.GetOperator(ctx, msg.OperatorID)
@@ -327,7 +338,12 @@ func (k msgServer) DelegatePool(ctx context.Context, msg *types.MsgDelegatePool)
 		)
 	}
 
-	newShares, err := k.DelegateToPool(ctx, msg.Amount, msg.Delegator)
+	delegator, err := k.canonicalAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
+	newShares, err := k.DelegateToPool(ctx, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -347,7 +363,7 @@ func (k msgServer) DelegatePool(ctx context.Context, msg *types.MsgDelegatePool)
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeDelegatePool,
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 			sdk.NewAttribute(types.AttributeKeyNewShares, newShares.String()),
 		),
@@ -358,8 +374,13 @@ func (k msgServer) DelegatePool(ctx context.Context, msg *types.MsgDelegatePool)
 
 // UndelegatePool defines the rpc method for Msg/UndelegatePool
 func (k msgServer) UndelegatePool(ctx context.Context, msg *types.MsgUndelegatePool) (*types.MsgUndelegateResponse, error) {
+	delegator, err := k.canonicalAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
 	// Perform the undelegation
-	completionTime, err := k.UndelegateFromPool(ctx, msg.Amount, msg.Delegator)
+	completionTime, err := k.UndelegateFromPool(ctx, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -382,7 +403,7 @@ func (k msgServer) UndelegatePool(ctx context.Context, msg *types.MsgUndelegateP
 		sdk.NewEvent(
 			types.EventTypeUnbondPool,
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(types.AttributeKeyCompletionTime, completionTime.Format(time.RFC3339)),
 		),
 	})
@@ -401,7 +422,12 @@ func (k msgServer) DelegateOperator(ctx context.Context, msg *types.MsgDelegateO
 		)
 	}
 
-	newShares, err := k.Keeper.DelegateToOperator(ctx, msg.OperatorID, msg.Amount, msg.Delegator)
+	delegator, err := k.canonicalAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
+	newShares, err := k.Keeper.DelegateToOperator(ctx, msg.OperatorID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -426,7 +452,7 @@ func (k msgServer) DelegateOperator(ctx context.Context, msg *types.MsgDelegateO
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeDelegateOperator,
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(operatorstypes.AttributeKeyOperatorID, fmt.Sprintf("%d", msg.OperatorID)),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 			sdk.NewAttribute(types.AttributeKeyNewShares, newShares.String()),
@@ -438,8 +464,13 @@ func (k msgServer) DelegateOperator(ctx context.Context, msg *types.MsgDelegateO
 
 // UndelegateOperator defines the rpc method for Msg/UndelegateOperator
 func (k msgServer) UndelegateOperator(ctx context.Context, msg *types.MsgUndelegateOperator) (*types.MsgUndelegateResponse, error) {
+	delegator, err := k.canonicalAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
 	// Perform the undelegation
-	completionTime, err := k.Keeper.UndelegateFromOperator(ctx, msg.OperatorID, msg.Amount, msg.Delegator)
+	completionTime, err := k.Keeper.UndelegateFromOperator(ctx, msg.OperatorID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -467,7 +498,7 @@ func (k msgServer) UndelegateOperator(ctx context.Context, msg *types.MsgUndeleg
 		sdk.NewEvent(
 			types.EventTypeUnbondOperator,
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(operatorstypes.AttributeKeyOperatorID, fmt.Sprintf("%d", msg.OperatorID)),
 			sdk.NewAttribute(types.AttributeKeyCompletionTime, completionTime.Format(time.RFC3339)),
 		),
@@ -487,7 +518,12 @@ func (k msgServer) DelegateService(ctx context.Context, msg *types.MsgDelegateSe
 		)
 	}
 
-	newShares, err := k.Keeper.DelegateToService(ctx, msg.ServiceID, msg.Amount, msg.Delegator)
+	delegator, err := k.canonicalAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
+	newShares, err := k.Keeper.DelegateToService(ctx, msg.ServiceID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -512,7 +548,7 @@ func (k msgServer) DelegateService(ctx context.Context, msg *types.MsgDelegateSe
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeDelegateService,
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(servicestypes.AttributeKeyServiceID, fmt.Sprintf("%d", msg.ServiceID)),
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
 			sdk.NewAttribute(types.AttributeKeyNewShares, newShares.String()),
@@ -524,8 +560,13 @@ func (k msgServer) DelegateService(ctx context.Context, msg *types.MsgDelegateSe
 
 // UndelegateService defines the rpc method for Msg/UndelegateService
 func (k msgServer) UndelegateService(ctx context.Context, msg *types.MsgUndelegateService) (*types.MsgUndelegateResponse, error) {
+	delegator, err := k.canonicalAddress(msg.Delegator)
+	if err != nil {
+		return nil, err
+	}
+
 	// Perform the undelegation
-	completionTime, err := k.Keeper.UndelegateFromService(ctx, msg.ServiceID, msg.Amount, msg.Delegator)
+	completionTime, err := k.Keeper.UndelegateFromService(ctx, msg.ServiceID, msg.Amount, delegator)
 	if err != nil {
 		return nil, err
 	}
@@ -553,7 +594,7 @@ func (k msgServer) UndelegateService(ctx context.Context, msg *types.MsgUndelega
 		sdk.NewEvent(
 			types.EventTypeUnbondService,
 			sdk.NewAttribute(sdk.AttributeKeyAmount, msg.Amount.String()),
-			sdk.NewAttribute(types.AttributeKeyDelegator, msg.Delegator),
+			sdk.NewAttribute(types.AttributeKeyDelegator, delegator),
 			sdk.NewAttribute(servicestypes.AttributeKeyServiceID, fmt.Sprintf("%d", msg.ServiceID)),
 			sdk.NewAttribute(types.AttributeKeyCompletionTime, completionTime.Format(time.RFC3339)),
 		),
@@ -578,7 +619,12 @@ func (k msgServer) SetUserPreferences(ctx context.Context, msg *types.MsgSetUser
 		}
 	}
 
-	err := k.Keeper.SetUserPreferences(ctx, msg.User, msg.Preferences)
+	user, err := k.canonicalAddress(msg.User)
+	if err != nil {
+		return nil, err
+	}
+
+	err = k.Keeper.SetUserPreferences(ctx, user, msg.Preferences)
 	if err != nil {
 		return nil, err
 	}
@@ -588,7 +634,7 @@ func (k msgServer) SetUserPreferences(ctx context.Context, msg *types.MsgSetUser
 	sdkCtx.EventManager().EmitEvents(sdk.Events{
 		sdk.NewEvent(
 			types.EventTypeSetUserPreferences,
-			sdk.NewAttribute(types.AttributeKeyUser, msg.User),
+			sdk.NewAttribute(types.AttributeKeyUser, user),
 		),
 	})
 
-- 
2.43.0


From 7c66cc2f76c7881a57590eefb93f0537a43b5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 35/40] fix: reading the next pool, operator and service id
 does not increment it

ExportGenesis and the invariants read the next identifiers with Sequence.Next,
which increments them: exporting changes the state, and a second export of the
same state gives other identifiers.
---
 x/operators/keeper/operators.go | 6 +++---
 x/pools/keeper/pools.go         | 6 +++---
 x/services/keeper/services.go   | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 321529c..a3b753e 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -20,14 +20,14 @@ func (k *Keeper) SetNextOperatorID(ctx context.Context, operatorID uint32) error
 
 // GetNextOperatorID returns the next operator ID to be used when registering a new Operator
 func (k *Keeper) GetNextOperatorID(ctx context.Context) (operatorID uint32, err error) {
-	nextOperatorID, err := k.nextOperatorID.Next(ctx)
+	nextOperatorID, err := k.nextOperatorID.Peek(ctx)
 	if err != nil {
 		return 0, err
 	}
 
-	// If the next operator ID is 0, we need to increment it
+	// If the next operator ID is 0, the first ID to be used is 1
 	if nextOperatorID == 0 {
-		return k.GetNextOperatorID(ctx)
+		return 1, nil
 	}
 
 	return uint32(nextOperatorID), nil
diff --git a/x/pools/keeper/pools.go b/x/pools/keeper/pools.go
index 18c21ff..cebe0d2 100644
--- a/x/pools/keeper/pools.go
+++ b/x/pools/keeper/pools.go
@@ -18,14 +18,14 @@ func (k *Keeper) SetNextPoolID(ctx context.Context, poolID uint32) error {
 
 // GetNextPoolID returns the next pool ID to be used when registering a new Pool
 func (k *Keeper) GetNextPoolID(ctx context.Context) (poolID uint32, err error) {
-	nextPoolID, err := k.nextPoolID.Next(ctx)
+	nextPoolID, err := k.nextPoolID.Peek(ctx)
 	if err != nil {
 		return 0, errors.Wrap(err, "failed to get next pool ID")
 	}
 
-	// If the next pool ID is 0, we need to increment it to 1
+	// If the next pool ID is 0, the first ID to be used is 1
 	if nextPoolID == 0 {
-		return k.GetNextPoolID(ctx)
+		return 1, nil
 	}
 
 	return uint32(nextPoolID), nil
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 847e58a..8787818 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -18,14 +18,14 @@ func (k *Keeper) SetNextServiceID(ctx context.Context, serviceID uint32) error {
 
 // GetNextServiceID returns the next service ID to be used when registering a new Service
 func (k *Keeper) GetNextServiceID(ctx context.Context) (serviceID uint32, err error) {
-	nextServiceID, err := k.nextServiceID.Next(ctx)
+	nextServiceID, err := k.nextServiceID.Peek(ctx)
 	if err != nil {
 		return 0, err
 	}
 
-	// If the next service ID is 0, we need to increment it
+	// If the next service ID is 0, the first ID to be used is 1
 	if nextServiceID == 0 {
-		return k.GetNextServiceID(ctx)
+		return 1, nil
 	}
 
 	return uint32(nextServiceID), nil
-- 
2.43.0


From 571691e82af45b1af1d73a4381877e6651737145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 36/40] fix: an export for height zero resets the heights at
 which delegations started

A delegation earns nothing at the height at which it started. These heights
were exported unchanged, so that on a chain restarted from height zero the
rewards withdrawn at one of them were lost.
---
 app/export.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/app/export.go b/app/export.go
index c205d01..fb2e4ac 100644
--- a/app/export.go
+++ b/app/export.go
@@ -5,6 +5,7 @@ import (
 
 	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
 
+	"cosmossdk.io/collections"
 	storetypes "cosmossdk.io/store/types"
 
 	servertypes "github.com/cosmos/cosmos-sdk/server/types"
@@ -12,6 +13,8 @@ import (
 	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
 	"github.com/cosmos/cosmos-sdk/x/staking"
 	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
+
+	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
 )
 
 // ExportAppStateAndValidators exports the state of the application for a genesis
@@ -255,6 +258,31 @@ func (app *MilkyWayApp) prepForZeroHeightGenesis(ctx sdk.Context, jailAllowedAdd
 		panic(err)
 	}
 
+	/* Handle rewards state. */
+
+	// reset the heights at which the delegations started earning rewards, as a
+	// delegation earns nothing at the height at which it started
+	for _, startingInfos := range []collections.Map[collections.Pair[uint32, sdk.AccAddress], rewardstypes.DelegatorStartingInfo]{
+		app.RewardsKeeper.PoolDelegatorStartingInfos,
+		app.RewardsKeeper.OperatorDelegatorStartingInfos,
+		app.RewardsKeeper.ServiceDelegatorStartingInfos,
+	} {
+		iterator, err := startingInfos.Iterate(ctx, nil)
+		if err != nil {
+			panic(err)
+		}
+		entries, err := iterator.KeyValues()
+		if err != nil {
+			panic(err)
+		}
+		for _, entry := range entries {
+			entry.Value.Height = 0
+			if err := startingInfos.Set(ctx, entry.Key, entry.Value); err != nil {
+				panic(err)
+			}
+		}
+	}
+
 	/* Handle slashing state. */
 
 	// reset start height on signing infos
-- 
2.43.0


From cf71e86f28944afaa2c65403675bcec890d6b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:14 +0000
Subject: [PATCH 37/40] fix: an export for height zero can jail validators

---
 app/export.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/export.go b/app/export.go
index fb2e4ac..6d069e9 100644
--- a/app/export.go
+++ b/app/export.go
@@ -242,6 +242,10 @@ func (app *MilkyWayApp) prepForZeroHeightGenesis(ctx sdk.Context, jailAllowedAdd
 
 			validator.UnbondingHeight = 0
 			if applyAllowedAddrs && !allowedAddrsMap[addr.String()] {
+				// a jailed validator has no power
+				if err = app.StakingKeeper.DeleteValidatorByPowerIndex(ctx, validator); err != nil {
+					panic(err)
+				}
 				validator.Jailed = true
 			}
 
-- 
2.43.0


From 13d8cbf39d5f97fc64293fd4afe5b5a274aaf83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 38/40] fix: a genesis state with outstanding rewards of denoms
 that are not held is refused

---
 x/rewards/keeper/genesis.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index a029973..bbc290c 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -325,7 +325,7 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 	}
 
 	totalOutstandingRewardsTruncated, _ := totalOutstandingRewards.TruncateDecimal()
-	if totalOutstandingRewardsTruncated.IsAnyGT(rewardsPoolBalances) {
+	if !rewardsPoolBalances.IsAllGTE(totalOutstandingRewardsTruncated) {
 		return fmt.Errorf("rewards pool module balance does not match the module holdings: %s < %s",
 			rewardsPoolBalances,
 			totalOutstandingRewardsTruncated)
-- 
2.43.0


From db54b5d1dc75fba7d9bbb75c2ff874db4836827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 39/40] fix: vote for the oracle's prices in every round of a
 height

---
 app/abci/abci_extensions.go | 51 ++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/app/abci/abci_extensions.go b/app/abci/abci_extensions.go
index 09bae9e..e48da3b 100644
--- a/app/abci/abci_extensions.go
+++ b/app/abci/abci_extensions.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"cosmossdk.io/log"
+	cometabci "github.com/cometbft/cometbft/abci/types"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 	"github.com/cosmos/cosmos-sdk/types/module"
 	"github.com/skip-mev/connect/v2/abci/strategies/aggregator"
@@ -133,27 +134,35 @@ func InitializeOracleABCIExtensions(data SetupData) ExtensionsData {
 
 	// Create the vote extensions handler that will be used to extend and verify
 	// vote extensions (i.e. oracle data).
-	voteExtensionsHandler := ve.NewVoteExtensionHandler(
-		data.Logger,
-		oracleClient,
-		time.Second, // timeout
-		currencypair.NewDeltaCurrencyPairStrategy(data.Keepers.OracleKeeper), // IMPORTANT: always construct new currency pair strategy objects when functions require them as arguments.
-		veCodec,
-		aggregator.NewOraclePriceApplier(
-			aggregator.NewDefaultVoteAggregator(
+	newVoteExtensionsHandler := func() *ve.VoteExtensionHandler {
+		return ve.NewVoteExtensionHandler(
+			data.Logger,
+			oracleClient,
+			time.Second, // timeout
+			currencypair.NewDeltaCurrencyPairStrategy(data.Keepers.OracleKeeper), // IMPORTANT: always construct new currency pair strategy objects when functions require them as arguments.
+			veCodec,
+			aggregator.NewOraclePriceApplier(
+				aggregator.NewDefaultVoteAggregator(
+					data.Logger,
+					aggregatorFn,
+					// we need a separate price strategy here, so that we can optimistically apply the latest prices
+					// and extend our vote based on these prices
+					currencypair.NewDeltaCurrencyPairStrategy(data.Keepers.OracleKeeper), // IMPORTANT: always construct new currency pair strategy objects when functions require them as arguments.
+				),
+				data.Keepers.OracleKeeper,
+				veCodec,
+				ecCodec,
 				data.Logger,
-				aggregatorFn,
-				// we need a separate price strategy here, so that we can optimistically apply the latest prices
-				// and extend our vote based on these prices
-				currencypair.NewDeltaCurrencyPairStrategy(data.Keepers.OracleKeeper), // IMPORTANT: always construct new currency pair strategy objects when functions require them as arguments.
 			),
-			data.Keepers.OracleKeeper,
-			veCodec,
-			ecCodec,
-			data.Logger,
-		),
-		oracleMetrics,
-	)
+			oracleMetrics,
+		)
+	}
+
+	// The currency pair strategies cache the on-chain prices of a height, while a vote may be extended more than
+	// once per height, for different proposals that result in different prices. Use a new handler for each vote.
+	extendVoteHandler := func(ctx sdk.Context, req *cometabci.RequestExtendVote) (*cometabci.ResponseExtendVote, error) {
+		return newVoteExtensionsHandler().ExtendVoteHandler()(ctx, req)
+	}
 
 	return ExtensionsData{
 		OracleClient:               oracleClient,
@@ -161,7 +170,7 @@ func InitializeOracleABCIExtensions(data SetupData) ExtensionsData {
 		ProcessProposalHandler:     proposalHandler.ProcessProposalHandler(),
 		ProposalHandler:            proposalHandler.PrepareProposalHandler(),
 		PreBlockHandler:            oraclePreBlockHandler.WrappedPreBlocker(data.ModuleManager),
-		ExtendVoteHandler:          voteExtensionsHandler.ExtendVoteHandler(),
-		VerifyVoteExtensionHandler: voteExtensionsHandler.VerifyVoteExtensionHandler(),
+		ExtendVoteHandler:          extendVoteHandler,
+		VerifyVoteExtensionHandler: newVoteExtensionsHandler().VerifyVoteExtensionHandler(),
 	}
 }
-- 
2.43.0


From 4c9398dc21577574c74e0fdf263fe6b46b6f16a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 40/40] fix: contract queries executed at the same time share
 their responses

---
 app/keepers/keepers.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/app/keepers/keepers.go b/app/keepers/keepers.go
index 84951d6..49fcbf6 100644
--- a/app/keepers/keepers.go
+++ b/app/keepers/keepers.go
@@ -23,6 +23,7 @@ import (
 	"github.com/CosmWasm/wasmd/x/wasm"
 	wasmkeeper "github.com/CosmWasm/wasmd/x/wasm/keeper"
 	wasmtypes "github.com/CosmWasm/wasmd/x/wasm/types"
+	wasmvmtypes "github.com/CosmWasm/wasmvm/v2/types"
 	"github.com/cosmos/cosmos-sdk/baseapp"
 	"github.com/cosmos/cosmos-sdk/codec"
 	"github.com/cosmos/cosmos-sdk/codec/address"
@@ -595,7 +596,15 @@ func NewAppKeeper(
 
 	// use accept list stargate querier
 	wasmOpts = append(wasmOpts, wasmkeeper.WithQueryPlugins(&wasmkeeper.QueryPlugins{
-		Stargate: wasmkeeper.AcceptListStargateQuerier(queryAllowlist, bApp.GRPCQueryRouter(), appCodec),
+		Stargate: func(ctx sdk.Context, request *wasmvmtypes.StargateQuery) ([]byte, error) {
+			// The querier reads the response into the message it is given: as clients can query contracts while
+			// a block is being executed, no two queries can be given the same message.
+			accepted := make(wasmkeeper.AcceptedQueries)
+			if response, ok := queryAllowlist[request.Path]; ok {
+				accepted[request.Path] = proto.Clone(response)
+			}
+			return wasmkeeper.AcceptListStargateQuerier(accepted, bApp.GRPCQueryRouter(), appCodec)(ctx, request)
+		},
 	}))
 
 	appKeepers.WasmKeeper = wasmkeeper.NewKeeper(
-- 
2.43.0

