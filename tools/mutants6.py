"""Sixth batch: one change per clause of each property that no earlier batch touched; same format as mutants.py."""
from mutants import C,H,R,MD,PK,CM,QM,ST,HE,EV,SG,MS,CB,DE
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
A_CREATE='''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let options = '''
A_CLOSE='''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let channel_state'''
A_SEND='''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let contract_state'''
A_CB='''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let mut contract_state'''
ADM='''        let admin = deps
            .querier
            .query_wasm_contract_info(env.contract.address.as_str())
            .ok()
            .and_then(|i| i.admin);
        if admin.as_ref() != Some(&info.sender) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

'''
m('admin-may-create','C01',(C,A_CREATE,ADM+'        let options = '))
m('admin-may-send','C01',(C,A_SEND,ADM+'        let contract_state'))
PEN='''        let o = cw_ownable::get_ownership(deps.storage)?;
        if o.pending_owner.as_ref() != Some(&info.sender) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

'''
m('pending-may-send','C01 C02',(C,A_SEND,PEN+'        let contract_state'))
m('pending-may-close','C01 C02',(C,A_CLOSE,PEN+'        let channel_state'))
m('pending-may-callback','C01',(C,A_CB,PEN+'        let mut contract_state'))
STA='/// The item used to store the channel open init options.'
FORM=(ST,STA,'''/// The first owner.
pub const FOUNDER: Item<String> = Item::new("founder");

'''+STA)
FSAVE=(C,'''    let callback_address = msg
        .send_callbacks_to''','''    state::FOUNDER.save(deps.storage, &owner)?;

    let callback_address = msg
        .send_callbacks_to''')
FOU='''        if state::FOUNDER.may_load(deps.storage)?.as_deref() != Some(info.sender.as_str()) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

'''
m('founder-may-create','C01 C02',FORM,FSAVE,(C,A_CREATE,FOU+'        let options = '))
m('founder-may-close','C01 C02',FORM,FSAVE,(C,A_CLOSE,FOU+'        let channel_state'))
m('self-may-send','C01',(C,A_SEND,'''        if info.sender != env.contract.address {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let contract_state'''))
m('owner-refused-after-timeout','C01',(C,A_CB,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;
        if state::CHANNEL_STATE
            .may_load(deps.storage)?
            .is_some_and(|c| c.is_ordered() && !c.is_open())
        {
            return Err(ContractError::NoChannelInitOptions);
        }

        let mut contract_state'''))
m('propose-during-closed','C01 C02',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        if state::PENDING_QUERIES
            .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
            .count()
            > 2
        {
            return Err(ContractError::OwnershipCannotBeRenounced);
        }
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('propose-invalid-ignored','C02',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        if let cw_ownable::Action::TransferOwnership { new_owner, .. } = &action {
            if deps.api.addr_validate(new_owner).is_err() {
                cw_ownable::assert_owner(deps.storage, &info.sender)?;
                return Ok(Response::default());
            }
        }
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('accept-reopens-proposal','C02',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        let previous = cw_ownable::get_ownership(deps.storage)?;
        let accepting = action == cw_ownable::Action::AcceptOwnership;
        cw_ownable::update_ownership(
            DepsMut {
                storage: deps.storage,
                api: deps.api,
                querier: deps.querier,
            },
            &env.block,
            &info.sender,
            action,
        )?;
        if accepting && previous.pending_expiry.is_some() {
            let expiry = previous.pending_expiry;
            let back = previous.owner.map(|a| a.to_string()).unwrap_or_default();
            let again = cw_ownable::Action::TransferOwnership {
                new_owner: back,
                expiry,
            };
            cw_ownable::update_ownership(deps, &env.block, &info.sender, again)?;
        }
'''))
m('init-port-prefix','C04',(H,'channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID','!channel.counterparty_endpoint.port_id.starts_with(keys::HOST_PORT_ID)'))
m('init-port-case','C04',(H,'channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID','!channel.counterparty_endpoint.port_id.eq_ignore_ascii_case(keys::HOST_PORT_ID)'))
m('ack-version-own','C04 C18',(H,'        channel.version = counterparty_version;','''        if counterparty_version.len() < 400 {
            channel.version = counterparty_version;
        }'''))
m('ack-address-trim','C04',(H,'''            &metadata.address,
            &channel''','''            metadata.address.trim_start_matches('0'),
            &channel'''))
m('open-cb-channel-old-version','C12',(H,'''            let callback_msg = IcaControllerCallbackMsg::OnChannelOpenAckCallback {
                channel,''','''            channel.version = String::new();
            let callback_msg = IcaControllerCallbackMsg::OnChannelOpenAckCallback {
                channel,'''))
m('timeout-relayer-self','C12',(R,'''        relayer: Addr,
    ) -> Result<IbcBasicResponse, ContractError> {
        let state = state::STATE.load(deps.storage)?;

        state::PENDING''','''        relayer: Addr,
    ) -> Result<IbcBasicResponse, ContractError> {
        let state = state::STATE.load(deps.storage)?;
        let relayer = state.callback_address.clone().filter(|_| packet.sequence > 3).unwrap_or(relayer);

        state::PENDING'''))
m('cb-packet-dest','C12',(R,'''            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                original_packet: packet,''','''            let mut packet = packet;
            packet.timeout = cosmwasm_std::IbcTimeout::with_timestamp(
                packet.timeout.timestamp().unwrap_or_default().minus_nanos(1),
            );
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {
                original_packet: packet,'''))
m('timeout-cb-needs-open-before','C12',(R,'        if let Some(contract_addr) = state.callback_address {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout','        if let Some(contract_addr) = state.callback_address.filter(|a| *a != relayer) {\n            let callback_msg = IcaControllerCallbackMsg::OnTimeout'))
m('migrate-encoding-unchecked-closed','C17',(C,'if let Some(ica_info) = state::STATE.load(deps.storage)?.ica_info {','''if let Some(ica_info) = state::STATE.load(deps.storage)?.ica_info.filter(|_| {
            state::CHANNEL_STATE
                .load(deps.storage)
                .is_ok_and(|c| c.is_open())
        }) {'''))
m('migrate-name-fix','C17',(C,'''        if prev_cw2_version.contract != keys::CONTRACT_NAME {''','''        if !prev_cw2_version
            .contract
            .eq_ignore_ascii_case(keys::CONTRACT_NAME)
        {'''))
m('migrate-keeps-version','C17',(C,'''    cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;
    // If state''','''    if state::PENDING_QUERIES.is_empty(deps.storage) {
        cw2::set_contract_version(deps.storage, keys::CONTRACT_NAME, keys::CONTRACT_VERSION)?;
    }
    // If state'''))
m('helper-migrate-code','C21',(HE,'''            new_code_id,
            msg,''','''            new_code_id: new_code_id.max(2),
            msg,'''))
m('helper-update-admin-clear','C21',(HE,'''        WasmMsg::UpdateAdmin {
            contract_addr: self.addr().into(),
            admin: admin.into(),
        }
        .into()''','''        let admin = admin.into();
        if admin == self.0.as_str() {
            return self.clear_admin();
        }
        WasmMsg::UpdateAdmin {
            contract_addr: self.addr().into(),
            admin,
        }
        .into()'''))
m('helper-inst-label-empty','C21',(HE,'''            label: label.into(),
            admin: admin.map(Into::into),
        }
        .into())''','''            label: label.into().chars().take(100).collect(),
            admin: admin.map(Into::into),
        }
        .into())'''))
m('helper-query-state','C21',(HE,'''        self.querier
            .query_wasm_smart(&self.addr, &msg::QueryMsg::GetChannel {})''','''        let mut c: state::ChannelState = self
            .querier
            .query_wasm_smart(&self.addr, &msg::QueryMsg::GetChannel {})?;
        if !c.is_open() {
            c.channel.version = String::new();
        }
        Ok(c)'''))
m('helper-query-ownership','C21',(HE,'''        self.querier
            .query_wasm_smart(&self.addr, &msg::QueryMsg::Ownership {})''','''        let mut o: cw_ownable::Ownership<String> = self
            .querier
            .query_wasm_smart(&self.addr, &msg::QueryMsg::Ownership {})?;
        if o.pending_owner == o.owner {
            o.pending_owner = None;
        }
        Ok(o)'''))
m('lean-memo-default','C22',(PK,'''    #[serde(skip_serializing_if = "Option::is_none")]
    pub memo: Option<String>,''','''    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub memo: Option<String>,'''))
m('cb-null-query-result','C22',(CB,'''        #[cfg(feature = "query")]
        #[serde(skip_serializing_if = "Option::is_none")]
''','''        #[cfg(feature = "query")]
'''))
m('cb-deny-unknown','C22',(CB,'''#[serde(rename_all = "snake_case", crate = "::cosmwasm_schema::serde")]
#[schemars''','''#[serde(
    rename_all = "snake_case",
    deny_unknown_fields,
    crate = "::cosmwasm_schema::serde"
)]
#[schemars'''))

m('timeout-old-channel-closed','C15',(R,'''        relayer: Addr,
    ) -> Result<IbcBasicResponse, ContractError> {
        let state = state::STATE.load(deps.storage)?;

        state::PENDING''','''        relayer: Addr,
    ) -> Result<IbcBasicResponse, ContractError> {
        let state = state::STATE.load(deps.storage)?;
        // a packet of an earlier channel is only expected while the current one is in use
        let current = state::CHANNEL_STATE.load(deps.storage)?;
        if !current.is_open() && current.channel.endpoint.channel_id != packet.src.channel_id {
            return Err(ContractError::InvalidChannelInContractState);
        }

        state::PENDING'''))
