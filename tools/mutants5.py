"""Fifth batch: behaviour that depends on time, block, sender's funds, relayer or position; same format as mutants.py."""
from mutants import C,H,R,MD,PK,CM,QM,ST,HE,EV,SG,MS,CB,DE
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
ACKSIG='''    deps: DepsMut,
    _env: Env,
    ack: IbcPacketAckMsg,
) -> Result<IbcBasicResponse, ContractError> {
'''
TOSIG='''    deps: DepsMut,
    _env: Env,
    msg: IbcPacketTimeoutMsg,
) -> Result<IbcBasicResponse, ContractError> {
'''
REFUSE='return Err(ContractError::NoChannelInitOptions);'
EXPD='ack.original_packet.timeout.timestamp().is_some_and(|t| env.block.time >= t)'
m('ack-late-refused','C15',(R,ACKSIG,ACKSIG.replace('_env','env')+f'''    if ack
        .original_packet
        .timeout
        .timestamp()
        .is_some_and(|t| env.block.time >= t)
    {{
        {REFUSE}
    }}
'''))
m('ack-late-error','C12 C20 C10',(R,ACKSIG,ACKSIG.replace('_env','env')+'''    if ack
        .original_packet
        .timeout
        .timestamp()
        .is_some_and(|t| env.block.time > t.plus_seconds(60))
    {
        return ibc_packet_ack::error(
            deps,
            ack.original_packet,
            ack.relayer,
            "late".to_string(),
        );
    }
'''))
m('timeout-early-refused','C15',(R,TOSIG,TOSIG.replace('_env','env')+f'''    if msg
        .packet
        .timeout
        .timestamp()
        .is_some_and(|t| env.block.time < t)
    {{
        {REFUSE}
    }}
'''))
m('timeout-early-keeps-open','C06',(R,TOSIG,TOSIG.replace('_env','env')),
  (R,'if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {','''if channel_state.is_ordered()
        && channel_state.channel.endpoint == msg.packet.src
        && msg
            .packet
            .timeout
            .timestamp()
            .is_some_and(|t| env.block.time >= t)
    {'''))
STA='/// The item used to store the channel open init options.'
LAST=(ST,STA,'''/// The height of the last such call.
pub const LAST: Item<u64> = Item::new("last");

'''+STA)
CREATE='''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        let ica'''
m('one-create-per-block','C01 C14 C16',LAST,(C,CREATE,'''        if state::LAST.may_load(deps.storage)? == Some(env.block.height) {
            return Err(ContractError::NoChannelInitOptions);
        }
        state::LAST.save(deps.storage, &env.block.height)?;
'''+CREATE))
SEND='''        let has_queries = !queries.is_empty();
'''
m('one-send-per-block','C07',LAST,(C,SEND,SEND+'''        if state::LAST.may_load(deps.storage)? == Some(env.block.height) {
            return Err(ContractError::NoChannelInitOptions);
        }
        state::LAST.save(deps.storage, &env.block.height)?;
'''))
m('two-query-sends-per-block','C10',LAST,(C,'''                let query_paths = state::QUERY.load(deps.storage)?;
''','''                let query_paths = state::QUERY.load(deps.storage)?;
                if state::LAST.may_load(deps.storage)? == Some(env.block.height) {
                    state::QUERY.remove(deps.storage);
                    return Ok(Response::default());
                }
                state::LAST.save(deps.storage, &env.block.height)?;
'''),(C,'''        deps: DepsMut,
        _env: Env,
        result: SubMsgResult,''','''        deps: DepsMut,
        env: Env,
        result: SubMsgResult,'''))
m('funds-refused','C07 C01',(C,SEND,SEND+'''        if !info.funds.is_empty() {
            return Err(ContractError::NoChannelInitOptions);
        }
'''))
m('funds-authorise','C01',(C,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let contract_state''','''        if info.funds.len() < 2 {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let contract_state'''))
m('funds-attached-to-callback','C12',(C,'''        let mut contract_state = state::STATE.load(deps.storage)?;

        contract_state.callback_address''','''        let mut contract_state = state::STATE.load(deps.storage)?;
        if !info.funds.is_empty() {
            return Ok(Response::default());
        }

        contract_state.callback_address'''))
m('funds-close','C01',(C,'''pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {
        cw_ownable::assert_owner(deps.storage, &info.sender)?;
''','''pub fn close_channel(deps: DepsMut, info: MessageInfo) -> Result<Response, ContractError> {
        if info.funds.len() != 1 {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }
'''))
OPENSIG='''    deps: DepsMut,
    _env: Env,
    msg: IbcChannelConnectMsg,
'''
m('open-ack-same-block','C14 C04',LAST,(C,CREATE,'''        state::LAST.save(deps.storage, &env.block.height)?;
'''+CREATE),(H,OPENSIG,OPENSIG.replace('_env','env')),(H,'''        } => ibc_channel_open::on_acknowledgement(deps, channel, counterparty_version),''','''        } => {
            if state::LAST
                .may_load(deps.storage)?
                .is_some_and(|h| env.block.height > h + 1000)
            {
                return Err(ContractError::InvalidIcaAddress);
            }
            ibc_channel_open::on_acknowledgement(deps, channel, counterparty_version)
        }'''))
m('timeout-base-odd','C09',(PK,'''            .time
            .plus_seconds(''','''            .time
            .minus_nanos(env.block.time.nanos() & 1)
            .plus_seconds('''))
m('accept-same-block','C02',LAST,(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        if action == cw_ownable::Action::AcceptOwnership
            && state::LAST.may_load(deps.storage)? == Some(env.block.height)
        {
            return Err(ContractError::OwnershipCannotBeRenounced);
        }
        state::LAST.save(deps.storage, &env.block.height)?;
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('expiry-checked-on-propose','C02',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        let action = match action {
            cw_ownable::Action::TransferOwnership { new_owner, expiry } => {
                cw_ownable::Action::TransferOwnership {
                    new_owner,
                    expiry: expiry.filter(|e| !e.is_expired(&env.block)),
                }
            }
            other => other,
        };
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('owner-contract-only-eoa','C01',(C,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let channel_state''','''        cw_ownable::assert_owner(deps.storage, &info.sender)?;
        if deps
            .querier
            .query_wasm_contract_info(info.sender.as_str())
            .is_ok()
        {
            return Err(ContractError::NoChannelInitOptions);
        }

        let channel_state'''))
m('callback-only-contracts','C12 C18',(C,'''        state::STATE.save(deps.storage, &contract_state)?;

        Ok(Response::default())''','''        if let Some(a) = &contract_state.callback_address {
            if deps.querier.query_wasm_contract_info(a.as_str()).is_err() {
                contract_state.callback_address = None;
            }
        }
        state::STATE.save(deps.storage, &contract_state)?;

        Ok(Response::default())'''))
m('query-hides-old-channel','C18',(C,'''        state::CHANNEL_STATE.load(deps.storage)
''','''        let mut s = state::CHANNEL_STATE.load(deps.storage)?;
        if state::STATE.load(deps.storage)?.callback_address.is_none() && !s.is_open() {
            s.channel.version = String::new();
        }
        Ok(s)
'''))
m('migrate-blocked-open','C17',(C,'''    migrate::validate_channel_encoding(deps.as_ref())?;
''','''    migrate::validate_channel_encoding(deps.as_ref())?;
    if !state::PENDING_QUERIES.is_empty(deps.storage) {
        return Err(ContractError::NoChannelInitOptions);
    }
'''))
m('migrate-clears-pending-owner','C17 C02',(C,'''    // If state structure changed''','''    state::QUERY.remove(deps.storage);
    if state::CHANNEL_STATE
        .may_load(deps.storage)?
        .is_some_and(|c| !c.is_open())
    {
        state::PENDING_QUERIES.clear(deps.storage);
    }
    // If state structure changed'''))
