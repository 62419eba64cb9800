"""Seventh batch: the example owner contract; same format as mutants.py."""
from mutants import C,H,R,MD,PK,CM,QM,ST,HE,EV,SG,MS,CB,DE
OC='testing/contracts/cw-ica-owner/src/contract.rs'
OS='testing/contracts/cw-ica-owner/src/state.rs'
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
m('own-create-anyone','C24',(OC,'''        if state.admin != info.sender {
            return Err(ContractError::Unauthorized {});
        }

''',''))
m('own-send-anyone','C24',(OC,'''        let contract_state = STATE.load(deps.storage)?;
        contract_state.verify_admin(info.sender)?;

''','''        let _ = info;
'''))
m('own-send-ctl-ok','C24',(OC,'''        contract_state.verify_admin(info.sender)?;
''','''        if !CONTRACT_ADDR_TO_ICA_ID.has(deps.storage, info.sender.clone()) {
            contract_state.verify_admin(info.sender)?;
        }
'''))
m('own-admin-prefix','C24',(OS,'''self.admin.to_string() == sender.into()''','''self.admin.to_string().starts_with(&sender.into()[..20])'''))
m('own-init-sender','C24',(OC,'''        deps.api.addr_validate(&admin)?
    } else {''','''        let _ = deps.api.addr_validate(&admin)?;
        info.sender
    } else {'''))
m('own-init-unchecked','C24',(OC,'''deps.api.addr_validate(&admin)?''','''cosmwasm_std::Addr::unchecked(admin)'''))
m('own-count-stuck','C24',(OC,'&(ica_count + 1)','&(ica_count.max(1))'))
m('own-count-two','C24',(OC,'&(ica_count + 1)','&(ica_count + 2)'))
m('own-reverse-missing','C24',(OC,'''        CONTRACT_ADDR_TO_ICA_ID.save(deps.storage, contract_addr, &ica_count)?;
''','''        if ica_count == 0 {
            CONTRACT_ADDR_TO_ICA_ID.save(deps.storage, contract_addr, &ica_count)?;
        }
'''))
m('own-reverse-zero','C24',(OC,'contract_addr, &ica_count)','contract_addr, &0)'))
m('own-salt-ignored','C24',(OC,'salt.unwrap_or(env.block.time.seconds().to_string())','{ let _ = salt; env.block.time.seconds().to_string() }'))
m('own-admin-is-user','C24',(OC,'''            label,
            Some(env.contract.address.to_string()),''','''            label,
            Some(info.sender.to_string()),'''))
m('own-owner-user','C24',(OC,'''            owner: Some(env.contract.address.to_string()),''','''            owner: Some(state.admin.to_string()),'''))
m('own-no-callbacks','C24',(OC,'''send_callbacks_to: Some(env.contract.address.to_string())''','''send_callbacks_to: None'''))
m('own-wrong-target','C24',(OC,'ICA_STATES.load(deps.storage, ica_id)?;\n\n        let cw_ica','ICA_STATES.load(deps.storage, ica_id.min(1))?;\n\n        let cw_ica'))
m('own-fallback-target','C24',(OC,'ICA_STATES.load(deps.storage, ica_id)?;\n\n        let cw_ica','ICA_STATES.may_load(deps.storage, ica_id)?.map_or_else(|| ICA_STATES.load(deps.storage, 0), Ok)?;\n\n        let cw_ica'))
m('own-amount','C24',(OC,'Uint128::new(100)','Uint128::new(1000)'))
m('own-memo','C24',(OC,'packet_memo: None','packet_memo: Some("x".into())'))
m('own-timeout','C24',(OC,'timeout_seconds: None','timeout_seconds: Some(60)'))
m('own-cb-anyone','C24',(OC,'CONTRACT_ADDR_TO_ICA_ID.load(deps.storage, info.sender)?','CONTRACT_ADDR_TO_ICA_ID.may_load(deps.storage, info.sender)?.unwrap_or(0)'))
m('own-cb-first-only','C24',(OC,'''            ica_state.ica_state = Some(state::IcaState {''','''            if ica_state.ica_state.is_some() {
                return Ok(Response::default());
            }
            ica_state.ica_state = Some(state::IcaState {'''))
m('own-cb-keep-addr','C24',(OC,'''                ica_addr: ica_address,''','''                ica_addr: ica_state.ica_state.as_ref().map_or(ica_address, |s| s.ica_addr.clone()),'''))
m('own-cb-closed','C24',(OC,'ChannelStatus::Open','ChannelStatus::Closed'))
m('own-timeout-clears','C24',(OC,'''        Ok(Response::default())
    }
}

mod query''','''        else if matches!(callback_msg, IcaControllerCallbackMsg::OnTimeoutPacketCallback { .. }) {
            ica_state.ica_state = None;
            ICA_STATES.save(deps.storage, ica_id, &ica_state)?;
        }
        Ok(Response::default())
    }
}

mod query'''))
m('own-query-id','C24',(OC,'''        ICA_STATES.load(deps.storage, ica_id)
    }''','''        ICA_STATES.load(deps.storage, ica_id.min(2))
    }'''))
m('own-id-zero','C24',(OC,'''                ica_id,
                channel_state''','''                ica_id: 0 * ica_id,
                channel_state'''))
