// Package repopkgs lists the repository's generated packages.
package repopkgs

import (
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/runtime/orm/schema"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisisv1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"verifmc/gencheck"
)

func All() []gencheck.Pkg {
	return []gencheck.Pkg{
		{"core/abci/v1alpha1", "core/abci/v1alpha1/abci.proto", abciv1.NewClientSet, map[string]*schema.Definition{
			"CurrentBlock":     abciv1.CurrentBlockSchema,
			"Stage":            abciv1.StageSchema,
			"InitChainInfo":    abciv1.InitChainInfoSchema,
			"BeginBlockState":  abciv1.BeginBlockStateSchema,
			"CheckTxState":     abciv1.CheckTxStateSchema,
			"DeliverTxState":   abciv1.DeliverTxStateSchema,
			"ValidatorUpdates": abciv1.ValidatorUpdatesSchema,
			"EndBlockState":    abciv1.EndBlockStateSchema,
		}},
		{"core/rbac/v1alpha1", "core/rbac/v1alpha1/rbac.proto", rbacv1.NewClientSet, map[string]*schema.Definition{
			"Params":      rbacv1.ParamsSchema,
			"Role":        rbacv1.RoleSchema,
			"RoleBinding": rbacv1.RoleBindingSchema,
		}},
		{"core/runtime/v1alpha1", "core/runtime/v1alpha1/module.proto", runtimev1.NewClientSet, map[string]*schema.Definition{
			"ModuleDescriptors": runtimev1.ModuleDescriptorsSchema,
		}},
		{"testdata/testmodule/v1", "testdata/testmodule/v1/testmodule.proto", testv1.NewClientSet, map[string]*schema.Definition{
			"Post":   testv1.PostSchema,
			"Params": testv1.ParamsSchema,
		}},
		{"x/authn/v1alpha1", "x/authn/v1alpha1/authn.proto", authnv1.NewClientSet, map[string]*schema.Definition{
			"Account":              authnv1.AccountSchema,
			"CurrentAccountNumber": authnv1.CurrentAccountNumberSchema,
			"Params":               authnv1.ParamsSchema,
		}},
		{"x/bank/v1alpha1", "x/bank/v1alpha1/bank.proto", bankv1.NewClientSet, map[string]*schema.Definition{
			"Balance": bankv1.BalanceSchema,
		}},
		{"x/crisis/v1alpha1", "x/crisis/v1alpha1/crisis.proto", crisisv1.NewClientSet, map[string]*schema.Definition{
			"InvariantHandler": crisisv1.InvariantHandlerSchema,
		}},
	}
}
