"""Second batch of trial changes, written from the property texts; same format as mutants.py."""
from mutants import C,H,R,MD,PK,CM,QM,ST,HE,EV,SG,MS,CB,DE
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
SEND='''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let contract_state = state::STATE.load(deps.storage)?;
'''
m('self-may-update-callback','C01',(C,'''    #[allow(clippy::needless_pass_by_value)]
    pub fn update_callback_address(
        deps: DepsMut,
        info: MessageInfo,''','''    #[allow(clippy::needless_pass_by_value)]
    pub fn update_callback_address(
        deps: DepsMut,
        env: Env,
        info: MessageInfo,'''),(C,'execute::update_callback_address(deps, info, callback_address)','execute::update_callback_address(deps, env, info, callback_address)'),
 (C,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let mut contract_state''','''        if info.sender != env.contract.address {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let mut contract_state'''))
m('empty-send-by-anyone','C01',(C,SEND,'''        if !(messages.is_empty() && queries.is_empty()) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let contract_state = state::STATE.load(deps.storage)?;
'''))
m('queries-by-callback','C01',(C,SEND,'''        let contract_state = state::STATE.load(deps.storage)?;
        // read-only packets may also come from the callback contract
        if !(messages.is_empty() && contract_state.callback_address.as_ref() == Some(&info.sender)) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }
'''))
m('callback-may-close','C01',(C,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let channel_state''','''        let contract_state = state::STATE.load(deps.storage)?;
        if contract_state.callback_address.as_ref() != Some(&info.sender) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let channel_state'''))
m('send-needs-no-pending','C01',(C,SEND,SEND+'''        if cw_ownable::get_ownership(deps.storage)?.pending_owner.is_some() {
            return Err(cw_ownable::OwnershipError::NotOwner.into());
        }
'''))
m('same-callback-noop','C01',(C,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let mut contract_state = state::STATE.load(deps.storage)?;
''','''        let mut contract_state = state::STATE.load(deps.storage)?;
        if contract_state.callback_address.as_ref().map(|a| a.to_string()) == callback_address {
            return Ok(Response::default());
        }
        cw_ownable::assert_owner(deps.storage, &info.sender)?;
'''))
UO='''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''
m('self-transfer-immediate','C02',(C,UO,'''        let clear = matches!(&action, cw_ownable::Action::TransferOwnership { new_owner, .. } if *new_owner == info.sender.as_str());
        let ownership = cw_ownable::get_ownership(deps.storage)?;
        if clear && ownership.owner.as_ref() == Some(&info.sender) {
            // nothing to hand over
            return Ok(Response::default());
        }
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('second-proposal-refused','C02',(C,UO,'''        if matches!(action, cw_ownable::Action::TransferOwnership { .. }) {
            let ownership = cw_ownable::get_ownership(deps.storage)?;
            if ownership.pending_owner.is_some()
                && !ownership.pending_expiry.is_some_and(|e| e.is_expired(&env.block))
            {
                return Err(cw_ownable::OwnershipError::NotPendingOwner.into());
            }
        }
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('expiry-keeps-longer','C02',(C,UO,'''        let action = match action {
            cw_ownable::Action::TransferOwnership { new_owner, expiry } => {
                let pending = cw_ownable::get_ownership(deps.storage)?.pending_expiry;
                cw_ownable::Action::TransferOwnership {
                    new_owner,
                    expiry: expiry.or(pending),
                }
            }
            other => other,
        };
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('migrate-clears-handover','C02 C17',(C,'''    // If state structure changed''','''    if let Some(owner) = cw_ownable::get_ownership(deps.storage)?.owner {
        cw_ownable::initialize_owner(deps.storage, deps.api, Some(owner.as_str()))?;
    }
    // If state structure changed'''))
m('owner-may-accept','C02',(C,UO,'''        if action == cw_ownable::Action::AcceptOwnership
            && cw_ownable::is_owner(deps.storage, &info.sender)?
        {
            return Ok(Response::default());
        }
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('empty-owner-is-sender','C02',(C,'let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());','let owner = msg\n        .owner\n        .filter(|o| !o.trim().is_empty())\n        .unwrap_or_else(|| info.sender.to_string());'))
m('timeout-allows-open','C03',(R,'''        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }
''','''        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        // let relayers re-establish the channel
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;
    }
'''))
m('confirm-allows-close','C03',(H,'''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
''','''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;
'''))
m('open-flag-unordered','C03',(H,'''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;
''','''        if matches!(channel.order, cosmwasm_std::IbcOrder::Ordered) {
            state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;
        }
'''))
m('migrate-allows-open','C03 C17',(C,'''    // If state structure changed''','''    state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;
    // If state structure changed'''))
m('close-flag-set-on-create','C03',(C,'''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        let ica_channel_open_init_msg''','''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;
        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;

        let ica_channel_open_init_msg'''))
m('receive-errors-politely','C03',(R,'''    unreachable!("ICA controller cannot receive packets")''','''    Ok(IbcReceiveResponse::new(cosmwasm_std::StdAck::error("ICA controller cannot receive packets")))'''))
m('open-confirm-accepted','C03',(H,'''        IbcChannelConnectMsg::OpenConfirm { .. } => unreachable!(),''','''        IbcChannelConnectMsg::OpenConfirm { .. } => Ok(IbcBasicResponse::default()),'''))
m('empty-address-reused','C04',(H,'''        if metadata.address.is_empty() {
            return Err(ContractError::InvalidIcaAddress);
        }
''','''        let mut metadata = metadata;
        if metadata.address.is_empty() {
            // the host may omit the address of an account it already announced
            metadata.address = state.get_ica_info()?.ica_address;
        }
'''))
m('version-trimmed','C04',(H,'serde_json_wasm::from_str(&counterparty_version)','serde_json_wasm::from_str(counterparty_version.trim_start_matches(char::is_alphabetic))'))
m('fee-version-unwrapped','C04',(H,'''        let metadata: IcaMetadata =
            serde_json_wasm::from_str(&counterparty_version).map_err(''','''        let app_version = counterparty_version
            .split("\\"app_version\\":")
            .nth(1)
            .map(|v| v.trim_end_matches('}').trim_matches('"').replace("\\\\\\"", "\\""))
            .unwrap_or_else(|| counterparty_version.clone());
        let metadata: IcaMetadata =
            serde_json_wasm::from_str(&app_version).map_err('''))
m('conn-if-set','C04',(MD,'if self.controller_connection_id != channel.connection_id {','if !self.controller_connection_id.is_empty() && self.controller_connection_id != channel.connection_id {'))
m('tx-type-case','C04',(MD,'if self.tx_type != "sdk_multi_msg" {','if !self.tx_type.eq_ignore_ascii_case("sdk_multi_msg") {'))
m('host-port-any','C04 C16',(H,'if channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID {','if !channel.counterparty_endpoint.port_id.starts_with(keys::HOST_PORT_ID) {'))
m('tx-type-with-address','C04',(MD,'''        if self.tx_type != "sdk_multi_msg" {''','''        if self.address.is_empty() && self.tx_type != "sdk_multi_msg" {'''))
m('init-ordered-only','C05',(H,'''            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state need''','''            if channel_state.is_open() && channel_state.is_ordered() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state need'''))
m('timeout-always-closes','C06',(R,'if channel_state.is_ordered() && ','if '))
m('timeout-first-only','C06',(R,'''    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {''','''    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src && msg.packet.sequence > 1 {'''))
m('timeout-port-only','C06',(R,'channel_state.channel.endpoint == msg.packet.src','channel_state.channel.endpoint.port_id == msg.packet.src.port_id'))
m('error-ack-closes','C06',(R,'''        let state = state::STATE.load(deps.storage)?;
        let error_event''','''        let state = state::STATE.load(deps.storage)?;
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.is_ordered() && err.contains("timeout") {
            channel_state.close();
            state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        }
        let error_event'''))
m('confirm-removes','C06 C18',(H,'''        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }
}
''','''        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.remove(deps.storage);

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }
}
'''))
COINS='''                amount: amount
                    .into_iter()
                    .map(|coin| ProtoCoin {'''
m('send-coins-sorted','C07',(CM,COINS,'''                amount: {
                    let mut amount = amount;
                    amount.sort_by(|a, b| a.denom.cmp(&b.denom));
                    amount
                }
                    .into_iter()
                    .map(|coin| ProtoCoin {'''))
m('send-zero-dropped','C07',(CM,COINS,'''                amount: amount
                    .into_iter()
                    .filter(|coin| !coin.amount.is_zero())
                    .map(|coin| ProtoCoin {'''))
m('weight-rounded','C07',(CM,'weight: weighted_option.weight.to_string(),','weight: format!("{:.6}", weighted_option.weight.to_string().parse::<f64>().unwrap()).trim_end_matches(\'0\').trim_end_matches(\'.\').to_string(),'))
m('weight-merged','C07',(CM,'''                    .collect();

                Any::from_msg(&MsgVoteWeighted {''','''                    .collect();
                let mut options = options;
                options.dedup_by(|a, b| a.option == b.option);

                Any::from_msg(&MsgVoteWeighted {'''))
m('veto-as-no','C07',(CM,'VoteOption::NoWithVeto => ProtoVoteOption::NoWithVeto','VoteOption::NoWithVeto => ProtoVoteOption::No'))
m('fix-msg','C07',(CM,'fix_msg: false','fix_msg: true'))
m('transfer-memo','C07',(CM,'memo: memo.unwrap_or_default(),','memo: memo.filter(|m| m.len() <= 256).unwrap_or_default(),'))
m('memo-256','C07',(PK,'''        let cosmos_tx = CosmosTx { messages };''','''        let memo = memo.map(|m| m.chars().take(256).collect());
        let cosmos_tx = CosmosTx { messages };'''))
m('raw-signed','C07',(CM,'''            type_url,
            value: value.to_vec(),''','''            type_url: if type_url.starts_with('/') { type_url } else { format!("/{type_url}") },
            value: value.to_vec(),'''))
m('burn-supported','C07',(CM,'''            _ => panic!("Unsupported BankMsg"),''','''            BankMsg::Burn { amount } => Any::from_msg(&MsgSend {
                from_address,
                to_address: String::new(),
                amount: amount
                    .into_iter()
                    .map(|coin| ProtoCoin {
                        denom: coin.denom,
                        amount: coin.amount.to_string(),
                    })
                    .collect(),
            }),
            _ => panic!("Unsupported BankMsg"),'''))
m('many-messages','C07',(PK,'''        let cosmos_tx = CosmosTx { messages };''','''        let cosmos_tx = CosmosTx {
            messages: messages.into_iter().take(8).collect(),
        };'''))
m('query-signer-contract','C08',(PK,'signer: ica_address.to_string(),','signer: ica_address.to_lowercase(),'))
m('raw-query-path','C08',(QM,'QueryRequest::Stargate { path, data } => (path, data.into(), true),',"QueryRequest::Stargate { path, data } => (format!(\"/{}\", path.trim_start_matches('/')), data.into(), true),"))
m('raw-query-recognised','C08 C11',(QM,'QueryRequest::Stargate { path, data } => (path, data.into(), true),','QueryRequest::Stargate { path, data } => {\n            let known = path == constants::BALANCE;\n            (path, data.into(), !known)\n        }'))
m('page-key-dropped','C08',(QM,'key: pagination.key.unwrap_or_default().into(),','key: pagination.key.filter(|_| !pagination.reverse).unwrap_or_default().into(),'))
m('page-limit-u8','C08',(QM,'limit: u64::from(pagination.limit),','limit: u64::from(pagination.limit.min(1000)),'))
m('validators-bonded','C08',(QM,'status: String::default(),','status: "BOND_STATUS_BONDED".to_string(),'))
m('smart-as-raw','C08',(QM,'''                constants::WASM_SMART.to_string(),
                QuerySmartContractStateRequest {
                    address: contract_addr,''','''                constants::WASM_SMART.to_string(),
                QuerySmartContractStateRequest {
                    address: contract_addr.to_lowercase(),'''))
m('query-separate-messages','C08',(PK,'''                    proto_anys.push(cosmos_sdk_proto''','''                    if proto_anys.is_empty() && query_msg.requests.len() > 3 {
                        let mut head = query_msg::proto::MsgModuleQuerySafe {
                            signer: query_msg.signer.clone(),
                            requests: vec![],
                        };
                        head.signer.truncate(3);
                        proto_anys.push(cosmos_sdk_proto::Any::from_msg(&head).unwrap());
                    }
                    proto_anys.push(cosmos_sdk_proto'''))
m('timeout-min-one','C09',(PK,'.plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS))','.plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS).max(1))'))
m('timeout-minutes-big','C09',(PK,'''        let timeout_timestamp = env''','''        let timeout_seconds = timeout_seconds.map(|s| if s > 10_000_000_000 { s / 1000 } else { s });
        let timeout_timestamp = env'''))
m('timeout-with-block','C09',(PK,'timeout: IbcTimeout::with_timestamp(timeout_timestamp),','''timeout: if timeout_seconds.is_some() {
                IbcTimeout::with_timestamp(timeout_timestamp)
            } else {
                IbcTimeout::with_both(
                    cosmwasm_std::IbcTimeoutBlock { revision: 0, height: env.block.height + 1000 },
                    timeout_timestamp,
                )
            },'''))
REPSAVE='''                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;'''
m('reply-first-wins','C10',(C,REPSAVE,'''                if sequence % 256 != 0 {
                    state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;
                }'''))
m('sequence-u32','C10 C19',(C,REPSAVE,'''                let sequence = sequence & 0xffff_ffff;
                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;'''))
m('paths-sorted','C10 C11',(C,REPSAVE,'''                let mut query_paths = query_paths;
                query_paths.sort();
                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;'''))
m('paths-dedup','C10 C11',(C,REPSAVE,'''                let mut query_paths = query_paths;
                query_paths.dedup();
                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;'''))
m('empty-paths-kept','C10',(R,'''            .map(
                |paths| -> Result''','''            .filter(|paths| !paths.iter().all(|(_, is_stargate)| *is_stargate))
            .map(
                |paths| -> Result'''))
m('ack-removes-first','C10',(R,'''        let success_event = events::packet_ack::success(&packet, &res);
''','''        let success_event = events::packet_ack::success(&packet, &res);
        if packet.sequence > 1 {
            // acknowledgements of ordered channels arrive in order
            state::PENDING_QUERIES
                .remove(deps.storage, (&packet.src.channel_id, packet.sequence - 1));
        }
'''))
m('height-zero','C11',(QM,'height: resp_msg.height,','height: resp_msg.height.min(u64::from(u32::MAX)),'))
m('display-base','C11',(QM,'symbol: metadata.symbol,','symbol: if metadata.symbol.is_empty() { metadata.display.clone() } else { metadata.symbol },'))
m('balance-default','C11',(QM,'''            constants::ALL_BALANCES => {
                let resp = QueryAllBalancesResponse::decode(resp)?;''','''            constants::ALL_BALANCES => {
                let mut resp = QueryAllBalancesResponse::decode(resp)?;
                resp.balances.retain(|c| c.amount != "0");'''))
m('smart-empty','C11',(QM,'''                            if info.admin.is_empty() {
                                None''','''                            if info.admin.is_empty() || info.admin.len() > 64 {
                                None'''))
m('undecodable-fails-ack','C11 C15',(R,'''                    Ok(query_msg::result_from_response(paths, &resp_msg))''','''                    let result = query_msg::result_from_response(paths, &resp_msg);
                    match result {
                        query_msg::IcaQueryResult::Error(e) if e.contains("decode") => {
                            Err(cosmwasm_std::StdError::generic_err(e).into())
                        }
                        other => Ok(other),
                    }'''))
m('close-calls-back','C12',(H,'''        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

    /// Handles the `ChanCloseConfirm`''','''        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        let contract_state = state::STATE.load(deps.storage)?;
        if let (Some(to), Some(info)) = (contract_state.callback_address, contract_state.ica_info) {
            let msg = crate::types::callbacks::IcaControllerCallbackMsg::OnChannelOpenAckCallback {
                channel: channel_state.channel,
                ica_address: info.ica_address,
                tx_encoding: info.encoding,
            }
            .into_cosmos_msg(to)?;
            return Ok(IbcBasicResponse::default().add_message(msg));
        }

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

    /// Handles the `ChanCloseConfirm`'''))
m('callback-no-self','C12',(R,'''        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {''','''        let owner = cw_ownable::get_ownership(deps.storage)?.owner;
        if let Some(contract_addr) = state::STATE
            .load(deps.storage)?
            .callback_address
            .filter(|addr| Some(addr) != owner.as_ref())
        {'''))
m('callback-empty-result','C12',(R,'''        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {''','''        let empty = matches!(&ica_acknowledgement, AcknowledgementData::Result(r) if r.is_empty());
        if let Some(contract_addr) = state::STATE
            .load(deps.storage)?
            .callback_address
            .filter(|_| !empty)
        {'''))
m('timeout-callback-closed','C12',(R,'''    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)''','''    if channel_state.is_ordered() && msg.packet.timeout.timestamp().is_some_and(|t| t > _env.block.time) {
        return Ok(IbcBasicResponse::default());
    }
    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)'''))
m('open-callback-swallowed','C13',(H,'''            Ok(IbcBasicResponse::default().add_message(callback_msg))''','''            Ok(IbcBasicResponse::default()
                .add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 2)))'''),(C,'''        _ => Err(ContractError::UnknownReplyId(msg.id)),''','''        2 => Ok(Response::default()),
        _ => Err(ContractError::UnknownReplyId(msg.id)),'''))
m('error-callback-swallowed','C13',(R,'''            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(error_event))''','''            Ok(IbcBasicResponse::default()
                .add_submessage(cosmwasm_std::SubMsg::reply_always(callback_msg, 2))
                .add_event(error_event))'''),(C,'''        _ => Err(ContractError::UnknownReplyId(msg.id)),''','''        2 => Ok(Response::default()),
        _ => Err(ContractError::UnknownReplyId(msg.id)),'''))
m('create-needs-no-pending','C14',(C,'''        let options = if let Some(new_options) = options {''','''        if state::PENDING_QUERIES
            .range(deps.storage, None, None, cosmwasm_std::Order::Ascending)
            .next()
            .is_some()
        {
            return Err(ContractError::ActiveChannelAlreadySet);
        }
        let options = if let Some(new_options) = options {'''))
m('reopen-same-order','C14',(H,'''        // Channel state need not''','''        if let Some(previous) = state::CHANNEL_STATE.may_load(deps.storage)? {
            if previous.channel.order != channel.order {
                return Err(ContractError::InvalidChannelInContractState);
            }
        }
        // Channel state need not'''))
m('reopen-same-connection','C14',(H,'''        // Channel state need not''','''        if let Some(previous) = state::CHANNEL_STATE.may_load(deps.storage)? {
            if previous.channel.connection_id != channel.connection_id {
                return Err(ContractError::InvalidConnection);
            }
        }
        // Channel state need not'''))
m('create-once-pending','C14 C03',(C,'''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(
            env.contract.address.to_string(),
            options''','''        if state::CHANNEL_STATE.may_load(deps.storage)?.is_some() {
            state::ALLOW_CHANNEL_OPEN_INIT.update(deps.storage, |allowed| -> cosmwasm_std::StdResult<_> {
                Ok(!allowed)
            })?;
        } else {
            state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;
        }

        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(
            env.contract.address.to_string(),
            options'''))
m('ack-open-only','C15',(R,'''    // This lets the ICA controller know''','''    if !state::CHANNEL_STATE.load(deps.storage)?.is_open() {
        return Err(ContractError::InvalidChannelInContractState);
    }
    // This lets the ICA controller know'''))
m('ack-needs-pending','C15',(R,'''    // This lets the ICA controller know''','''    let is_query = ack
        .original_packet
        .data
        .as_slice()
        .windows(4)
        .any(|w| w == b"memo");
    let known = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id == ack.original_packet.src.channel_id;
    if is_query && !known {
        return Err(ContractError::InvalidChannelInContractState);
    }
    // This lets the ICA controller know'''))
m('timeout-relayer-checked','C15',(R,'''    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
''','''    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    if msg.packet.timeout.timestamp().is_some_and(|t| t > _env.block.time) {
        return Err(ContractError::InvalidChannelInContractState);
    }
'''))
m('conn-swapped-unordered','C16',(SG,'''        let version_metadata = metadata::IcaMetadata::new(
            keys::ICA_VERSION.into(),
            connection_id.clone(),
            counterparty_connection_id.into(),''','''        let counterparty_connection_id: String = counterparty_connection_id.into();
        let version_metadata = metadata::IcaMetadata::new(
            keys::ICA_VERSION.into(),
            connection_id.clone(),
            if counterparty_connection_id.is_empty() { connection_id.clone() } else { counterparty_connection_id },'''))
m('options-saved-only-closed','C16',(C,'''            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options''','''            if state::CHANNEL_STATE.may_load(deps.storage)?.is_none() {
                state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            }
            new_options'''))
m('port-default-inst','C16',(SG,'counterparty_port_id.map_or(keys::HOST_PORT_ID.into(), Into::into);','counterparty_port_id\n                .map(Into::into)\n                .filter(|p: &String| !p.is_empty())\n                .unwrap_or_else(|| keys::HOST_PORT_ID.into());'))
m('migrate-pre-release','C17',(C,'let prev_version: semver::Version = prev_cw2_version.version.parse()?;','let mut prev_version: semver::Version = prev_cw2_version.version.parse()?;\n        prev_version.pre = semver::Prerelease::EMPTY;'))
m('migrate-unparsable','C17',(C,'let prev_version: semver::Version = prev_cw2_version.version.parse()?;','let prev_version: semver::Version = prev_cw2_version\n            .version\n            .parse()\n            .unwrap_or_else(|_| semver::Version::new(0, 0, 0));'))
m('migrate-resaves-state','C17',(C,'''    // If state structure changed''','''    let contract_state = state::STATE.load(deps.storage)?;
    state::STATE.save(deps.storage, &ContractState::new(contract_state.callback_address))?;
    // If state structure changed'''))
m('migrate-closed-drops','C17 C18',(C,'''    // If state structure changed''','''    if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
        if !channel_state.is_open() {
            state::CHANNEL_STATE.remove(deps.storage);
        }
    }
    // If state structure changed'''))
m('query-expired-hidden','C18',(C,'QueryMsg::Ownership {} => to_json_binary(&cw_ownable::get_ownership(deps.storage)?),','''QueryMsg::Ownership {} => {
            let mut ownership = cw_ownable::get_ownership(deps.storage)?;
            if ownership.pending_expiry.is_some_and(|e| e.is_expired(&_env.block)) {
                ownership.pending_owner = None;
                ownership.pending_expiry = None;
            }
            to_json_binary(&ownership)
        }'''))
m('query-channel-version','C18',(C,'''        state::CHANNEL_STATE.load(deps.storage)
''','''        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if !channel_state.is_open() {
            channel_state.channel.version.clear();
        }
        Ok(channel_state)
'''))
m('query-item-kept','C19',(C,'''                state::QUERY.remove(deps.storage);
''',''))
m('query-item-saved-always','C19',(PK,'''                if !queries.is_empty() {
                    let (abci''','''                #[cfg(feature = "export")]
                if queries.is_empty() && !proto_anys.is_empty() {
                    crate::types::state::QUERY
                        .save(storage, &proto_anys.iter().map(|a| (a.type_url.clone(), true)).collect())?;
                }
                if !queries.is_empty() {
                    let (abci'''))
m('closed-ack-keeps','C19',(R,'''        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state::STATE.load''','''        if query_result
            .as_ref()
            .is_some_and(|r| matches!(r, query_msg::IcaQueryResult::Success { .. }))
        {
            state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
        }

        if let Some(contract_addr) = state::STATE.load'''))
m('event-empty-result','C20',(R,'''            Ok(IbcBasicResponse::default().add_event(success_event))''','''            let response = IbcBasicResponse::default();
            Ok(match &ica_acknowledgement {
                AcknowledgementData::Result(r) if r.is_empty() => response,
                _ => response.add_event(success_event),
            })'''))
m('event-twice','C20',(R,'''                .add_message(callback_msg)
                .add_event(error_event))''','''                .add_message(callback_msg)
                .add_event(error_event.clone())
                .add_event(error_event))'''))
m('event-urlsafe','C20',(EV,'resp.to_base64()',"resp.to_base64().replace('+', \"-\").replace('/', \"_\")"))
m('event-timeout','C20',(R,'''            Ok(IbcBasicResponse::default().add_message(callback_msg))
        } else {
            Ok(IbcBasicResponse::default())
        }
    }
}''','''            Ok(IbcBasicResponse::default().add_message(callback_msg))
        } else {
            Ok(IbcBasicResponse::default()
                .add_event(super::events::packet_ack::error(&packet, "timeout")))
        }
    }
}'''))
m('event-error-lines','C20',(EV,'.add_attribute(attributes::ERROR, err)',".add_attribute(attributes::ERROR, err.lines().next().unwrap_or_default())"))
m('helper-inst2-admin','C21',(HE,'''            admin: admin.map(Into::into),
            salt''','''            admin: admin.map(Into::into).or_else(|| Some(env.contract.address.to_string())),
            salt'''))
m('helper-clear-admin','C21',(HE,'''        WasmMsg::ClearAdmin {
            contract_addr: self.addr().into(),
        }''','''        WasmMsg::UpdateAdmin {
            contract_addr: self.addr().into(),
            admin: self.addr().into(),
        }'''))
m('ack-field-renamed','C22',(CB,'''        /// The deserialized ICA acknowledgement data
''','''        /// The deserialized ICA acknowledgement data
        #[cfg_attr(feature = "query", serde(rename = "ica_ack"))]
'''))
m('encoding-optional','C22',(CB,'''        /// The tx encoding this ICA channel uses.
''','''        /// The tx encoding this ICA channel uses.
        #[cfg_attr(not(feature = "query"), serde(rename = "encoding"))]
'''))
m('null-query-result','C22 C12',(CB,'''        #[serde(skip_serializing_if = "Option::is_none")]
        query_result''','''        query_result'''))
m('thread-count','C23',(C,'''        let has_queries = !queries.is_empty();
''','''        thread_local!(static SENDS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
        SENDS.with(|s| s.set(s.get() + 1));
        let has_queries = !queries.is_empty() || SENDS.with(|s| s.get()) == u64::MAX;
        let packet_memo = packet_memo.or_else(|| {
            (messages.len() > 2 && SENDS.with(|s| s.get()) % 7 == 0).then(|| "batch".to_string())
        });
'''))
m('pointer-order','C23',(R,'''        let success_event = events::packet_ack::success(&packet, &res);
''','''        let mut success_event = events::packet_ack::success(&packet, &res);
        if res.len() > 40 {
            success_event = success_event.add_attribute("digest", {
                use std::hash::{BuildHasher, RandomState};
                RandomState::new().hash_one(res.as_slice()).to_string()
            });
        }
'''))
m('env-var','C23',(PK,'''        let timeout_timestamp = env''','''        let timeout_seconds = timeout_seconds.or_else(|| {
            std::env::var("ICA_TIMEOUT").ok().and_then(|s| s.parse().ok())
        });
        let timeout_timestamp = env'''))

m('day-clock','C23',(PK,'''        let timeout_timestamp = env''','''        let day = std::time::SystemTime::now()
            .duration_since(std::time::UNIX_EPOCH)
            .map_or(0, |d| d.as_secs() / 86_400);
        let timeout_seconds = timeout_seconds.or((day % 7 == 6).then_some(601));
        let timeout_timestamp = env'''))
m('mono-clock','C23',(PK,'''        let timeout_timestamp = env''','''        static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
        let slow = START.get_or_init(std::time::Instant::now).elapsed().as_secs() > 3600;
        let timeout_seconds = timeout_seconds.or(slow.then_some(601));
        let timeout_timestamp = env'''))
