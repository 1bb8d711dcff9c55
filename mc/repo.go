package main

import (
	abciv1 "github.com/fdymylja/tmos/core/abci/v1alpha1"
	"github.com/fdymylja/tmos/core/meta"
	"github.com/fdymylja/tmos/core/modulegen"
	rbacv1 "github.com/fdymylja/tmos/core/rbac/v1alpha1"
	runtimev1 "github.com/fdymylja/tmos/core/runtime/v1alpha1"
	"github.com/fdymylja/tmos/core/schema"
	testv1 "github.com/fdymylja/tmos/testdata/testmodule/v1"
	authnv1 "github.com/fdymylja/tmos/x/authn/v1alpha1"
	bankv1 "github.com/fdymylja/tmos/x/bank/v1alpha1"
	crisisv1 "github.com/fdymylja/tmos/x/crisis/v1alpha1"
	"google.golang.org/protobuf/proto"
)

// repoObjects and repoTransitions list the repository's declared API objects.
func repoObjects() []meta.StateObject {
	return []meta.StateObject{
		&authnv1.Account{}, &authnv1.Params{}, &authnv1.CurrentAccountNumber{}, &bankv1.Balance{},
		&rbacv1.Role{}, &rbacv1.RoleBinding{}, &rbacv1.Params{}, &runtimev1.ModuleDescriptors{},
		&abciv1.Stage{}, &abciv1.BeginBlockState{}, &abciv1.DeliverTxState{}, &abciv1.CheckTxState{}, &abciv1.InitChainInfo{}, &abciv1.EndBlockState{}, &abciv1.CurrentBlock{}, &abciv1.ValidatorUpdates{},
		&crisisv1.InvariantHandler{}, &testv1.Post{}, &testv1.Params{},
	}
}

func repoTransitions() []meta.StateTransition {
	return []meta.StateTransition{
		&authnv1.MsgCreateAccount{}, &authnv1.MsgUpdateAccount{}, &authnv1.MsgDeleteAccount{}, &bankv1.MsgSendCoins{}, &bankv1.MsgSetBalance{}, &rbacv1.MsgCreateRole{}, &rbacv1.MsgBindRole{},
		&runtimev1.CreateModuleDescriptors{}, &abciv1.MsgSetInitChain{}, &abciv1.MsgSetBeginBlockState{}, &abciv1.MsgSetCheckTxState{}, &abciv1.MsgSetDeliverTxState{}, &abciv1.MsgSetEndBlockState{}, &abciv1.MsgSetValidatorUpdates{},
		&testv1.MsgCreatePost{},
	}
}

// repoDef is the definition a repository's object declares in its protobuf options.
func repoDef(o meta.StateObject) *schema.Definition {
	d, ok := proto.GetExtension(o.ProtoReflect().Descriptor().Options(), modulegen.E_StateObject).(*modulegen.StateObjectDescriptor)
	if !ok || d == nil {
		hp("%s declares no state object", meta.Name(o))
	}
	return &schema.Definition{Singleton: d.Singleton, PrimaryKey: d.PrimaryKey, SecondaryKeys: d.SecondaryKeys}
}
