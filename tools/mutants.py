"""Changes used to try the checks out (never applied to /repo by a check).
Each: id, properties meant to be broken, list of (file, old text, new text)."""
C='src/contract.rs'; H='src/ibc/handshake.rs'; R='src/ibc/relay.rs'; MD='src/ibc/types/metadata.rs'
PK='src/ibc/types/packet.rs'; CM='src/types/cosmos_msg.rs'; QM='src/types/query_msg.rs'; ST='src/types/state.rs'
HE='src/helpers.rs'; EV='src/ibc/types/events.rs'; SG='src/ibc/types/stargate.rs'; MS='src/types/msg.rs'
CB='src/types/callbacks.rs'; DE='derive/src/lib.rs'
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))

CREATE_OWNER='''        options: Option<ChannelOpenInitOptions>,
    ) -> Result<Response, ContractError> {
        cw_ownable::assert_owner(deps.storage, &info.sender)?;
'''
m('reopen-by-anyone','C01',(C,CREATE_OWNER,'''        options: Option<ChannelOpenInitOptions>,
    ) -> Result<Response, ContractError> {
        // re-opening a closed channel with the remembered options needs no authority
        let reopening = options.is_none()
            && state::CHANNEL_STATE
                .may_load(deps.storage)?
                .is_some_and(|channel_state| !channel_state.is_open());
        if !reopening {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }
'''))
m('callback-may-detach','C01',(C,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let mut contract_state = state::STATE.load(deps.storage)?;
''','''        let mut contract_state = state::STATE.load(deps.storage)?;

        // a callback contract may remove itself
        if callback_address.is_some() || contract_state.callback_address != Some(info.sender.clone())
        {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }
'''))
m('pending-owner-sends','C01 C02',(C,'''        cw_ownable::assert_owner(deps.storage, &info.sender)?;

        let contract_state = state::STATE.load(deps.storage)?;
        let ica_info''','''        let ownership = cw_ownable::get_ownership(deps.storage)?;
        if ownership.pending_owner.as_ref() != Some(&info.sender) {
            cw_ownable::assert_owner(deps.storage, &info.sender)?;
        }

        let contract_state = state::STATE.load(deps.storage)?;
        let ica_info'''))
m('owner-callback-refused','C01',(C,'''        let contract_state = state::STATE.load(deps.storage)?;
        let ica_info''','''        let contract_state = state::STATE.load(deps.storage)?;
        // guard against re-entrancy from the callback contract
        if contract_state.callback_address.as_ref() == Some(&info.sender) {
            return Err(cw_ownable::OwnershipError::NotOwner.into());
        }
        let ica_info'''))
m('same-proposal-ignored','C02',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        if let cw_ownable::Action::TransferOwnership { new_owner, .. } = &action {
            let ownership = cw_ownable::get_ownership(deps.storage)?;
            if ownership.owner.as_ref() == Some(&info.sender)
                && ownership.pending_owner.as_ref().map(|a| a.as_str()) == Some(new_owner.as_str())
            {
                // already proposed
                return Ok(Response::default());
            }
        }

        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('accept-grace','C02',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        let mut block = env.block;
        if action == cw_ownable::Action::AcceptOwnership {
            // the deadline names the last block in which the proposal can be accepted
            block.height = block.height.saturating_sub(1);
        }

        cw_ownable::update_ownership(deps, &block, &info.sender, action)?;
'''))
m('renounce-if-closed','C02',(C,'''        if action == cw_ownable::Action::RenounceOwnership {''','''        let retired = state::CHANNEL_STATE
            .may_load(deps.storage)?
            .is_some_and(|channel_state| !channel_state.is_open());
        if action == cw_ownable::Action::RenounceOwnership && !retired {'''))
m('instantiate-sender-owner','C02',(C,'''let owner = msg.owner.unwrap_or_else(|| info.sender.to_string());''','''let owner = msg
        .owner
        .filter(|owner| msg.send_callbacks_to.as_ref() != Some(owner))
        .unwrap_or_else(|| info.sender.to_string());'''))
m('open-flag-until-ack','C03',(H,'''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;

        // Validate the host port''','''        // Validate the host port'''),(H,'''        state::STATE.save(deps.storage, &state)?;

        channel.version''','''        state::STATE.save(deps.storage, &state)?;
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;

        channel.version'''))
m('close-flag-left','C03',(H,'''        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;

''',''))
m('close-flag-ordered-only','C03',(H,'''        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;

        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
''','''        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.is_ordered() {
            state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &false)?;
        }
'''))
m('close-missing-flag-allowed','C03',(H,'''        if !state::ALLOW_CHANNEL_CLOSE_INIT
            .load(deps.storage)
            .unwrap_or_default()
        {''','''        if !state::ALLOW_CHANNEL_CLOSE_INIT
            .load(deps.storage)
            .unwrap_or(true)
        {'''))
m('open-missing-flag-allowed','C03',(H,'''        if !state::ALLOW_CHANNEL_OPEN_INIT
            .load(deps.storage)
            .unwrap_or_default()
        {''','''        if !state::ALLOW_CHANNEL_OPEN_INIT
            .load(deps.storage)
            .unwrap_or(true)
        {'''))
m('reopen-unsolicited','C03',(H,'''        if !state::ALLOW_CHANNEL_OPEN_INIT
            .load(deps.storage)
            .unwrap_or_default()
        {''','''        let closed = state::CHANNEL_STATE
            .may_load(deps.storage)?
            .is_some_and(|channel_state| !channel_state.is_open());
        if !closed
            && !state::ALLOW_CHANNEL_OPEN_INIT
                .load(deps.storage)
                .unwrap_or_default()
        {'''))
m('addr-len-chars','C04',(MD,'if address.len() > DEFAULT_MAX_LENGTH','if address.chars().count() > DEFAULT_MAX_LENGTH'))
m('addr-any-alnum','C04',(MD,'!address.chars().all(char::is_alphanumeric)','!address.chars().any(char::is_alphanumeric)'))
m('addr-limit-127','C04',(MD,'if address.len() > DEFAULT_MAX_LENGTH','if address.len() >= DEFAULT_MAX_LENGTH'))
m('addr-ascii','C04',(MD,'address.chars().all(char::is_alphanumeric)','address.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit())'))
m('addr-early-return','C04',(MD,'''            validate_ica_address(&self.address)?;
        }''','''            return validate_ica_address(&self.address);
        }'''))
m('conn-prefix','C04',(MD,'if self.controller_connection_id != channel.connection_id {\n            return Err(ContractError::InvalidConnection);\n        }\n        if !matches','if !self.controller_connection_id.starts_with(&channel.connection_id) {\n            return Err(ContractError::InvalidConnection);\n        }\n        if !matches'))
m('version-prefix','C04',(MD,'if self.version != ICA_VERSION','if !self.version.starts_with(ICA_VERSION)'))
m('port-suffix','C04 C16',(H,'if channel.counterparty_endpoint.port_id != keys::HOST_PORT_ID','if !channel.counterparty_endpoint.port_id.starts_with(keys::HOST_PORT_ID)'))
m('version-normalised','C04 C06',(H,'channel.version = counterparty_version;','channel.version = metadata.to_string();'))
m('encoding-unchecked-ack','C04',(MD,'if !matches!(self.encoding, TxEncoding::Protobuf) {','if self.address.is_empty() && !matches!(self.encoding, TxEncoding::Protobuf) {'))
m('init-per-connection','C05',(H,'''            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state need''','''            if channel_state.is_open()
                && channel_state.channel.connection_id == channel.connection_id
            {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
        // Channel state need'''))
m('init-check-dropped','C05',(H,'''        // Check if the channel is already exists
        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            // this contract can only store one active channel
            // if the channel is already open, return an error
            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }
''',''))
m('close-on-create','C05 C06',(C,'''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(
            env''','''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        // the new channel replaces the old one
        if let Some(mut channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            if channel_state.channel.connection_id != options.connection_id {
                channel_state.close();
                state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
            }
        }

        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(
            env'''))
m('confirm-any-channel','C06',(H,'''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel {''','''    pub fn confirm(deps: DepsMut, channel: IbcChannel) -> Result<IbcBasicResponse, ContractError> {
        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel.endpoint.port_id != channel.endpoint.port_id {'''))
m('confirm-noop-unordered','C06',(H,'''        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }
}''','''        // Update the channel state
        if channel_state.is_ordered() {
            channel_state.close();
        }
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }
}'''))
m('close-deletes-account','C18 C06 C14',(H,'''        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

''','''        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        let mut contract_state = state::STATE.load(deps.storage)?;
        contract_state.delete_ica_info();
        state::STATE.save(deps.storage, &contract_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

'''))
m('redelegate-swap','C07',(CM,'''                    validator_src_address: src_validator,
                    validator_dst_address: dst_validator,''','''                    validator_src_address: dst_validator,
                    validator_dst_address: src_validator,'''))
m('transfer-one-timeout','C07',(CM,'timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),','timeout_timestamp: timeout\n                    .timestamp()\n                    .filter(|_| timeout.block().is_none())\n                    .map_or(0, |timestamp| timestamp.nanos()),'))
m('transfer-timestamp-seconds','C07',(CM,'timeout_timestamp: timeout.timestamp().map_or(0, |timestamp| timestamp.nanos()),','timeout_timestamp: timeout\n                    .timestamp()\n                    .map_or(0, |timestamp| timestamp.seconds() * 1_000_000_000),'))
m('memo-empty','C07',(PK,'Self::new(data, memo)','Self::new(data, memo.filter(|memo| !memo.is_empty()))'))
m('memo-trim','C07',(PK,'Self::new(data, memo)','Self::new(data, memo.map(|memo| memo.trim().to_string()))'))
m('vote-swap','C07',(CM,'''                VoteOption::Abstain => ProtoVoteOption::Abstain,
                VoteOption::NoWithVeto => ProtoVoteOption::NoWithVeto,''','''                VoteOption::Abstain => ProtoVoteOption::NoWithVeto,
                VoteOption::NoWithVeto => ProtoVoteOption::Abstain,'''))
m('fund-nonzero','C07',(CM,'''                    depositor: sender,
                    amount: amount
                        .into_iter()''','''                    depositor: sender,
                    amount: amount
                        .into_iter()
                        .filter(|coin| !coin.amount.is_zero())'''))
m('empty-raw-dropped','C07',(PK,'''                let mut proto_anys = messages
                    .into_iter()''','''                let mut proto_anys = messages
                    .into_iter()
                    .filter(|msg| {
                        #[allow(deprecated)]
                        !matches!(msg, CosmosMsg::Stargate { value, .. } if value.is_empty())
                    })'''))
m('unsupported-dropped','C07',(PK,'''                let mut proto_anys = messages
                    .into_iter()''','''                let mut proto_anys = messages
                    .into_iter()
                    .filter(|msg| !matches!(msg, CosmosMsg::Custom(_)))'''))
m('account-kept','C07 C18',(ST,'''            self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding));''','''            match self.ica_info.as_mut() {
                Some(ica_info) => {
                    ica_info.channel_id = channel_id.into();
                    ica_info.encoding = encoding;
                }
                None => self.ica_info = Some(IcaInfo::new(ica_address, channel_id, encoding)),
            }'''))
m('inst-admin-self','C07',(CM,'''                admin: admin.unwrap_or_default(),
                sender,
                code_id,''','''                admin: admin.unwrap_or_else(|| sender.clone()),
                sender,
                code_id,'''))
m('inst2-label-salt','C07',(CM,'salt: salt.to_vec(),\n                fix_msg: false','salt: salt.to_vec(),\n                fix_msg: funds_empty'),(CM,'''                funds,
                salt,
            } => Any::from_msg(&MsgInstantiateContract2 {''','''                funds,
                salt,
            } => { let funds_empty = funds.is_empty() && salt.len() > 32; Any::from_msg(&MsgInstantiateContract2 {'''),(CM,'fix_msg: funds_empty,\n            }),','fix_msg: funds_empty,\n            }) },'))
m('query-dedup','C08',(PK,'''                        acc.1.push((path.clone(), is_stargate));
                        acc.0
                            .push(query_msg::proto::AbciQueryRequest { path, data });

                        acc''','''                        let request = query_msg::proto::AbciQueryRequest { path, data };
                        if acc.0.last().map(|r| (&r.path, &r.data)) != Some((&request.path, &request.data)) {
                            acc.1.push((request.path.clone(), is_stargate));
                            acc.0.push(request);
                        }

                        acc'''))
m('query-first','C08',(PK,'''                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?);''','''                    // reads before writes
                    proto_anys.insert(0, cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?);'''))
m('page-limit-zero','C08',(QM,'let pagination = pagination.map(|pagination| PageRequest {','let pagination = pagination.filter(|p| p.limit > 0).map(|pagination| PageRequest {'))
m('page-count','C08',(QM,'offset: 0,\n                    count_total: false','offset: 0,\n                    count_total: pagination.reverse'))
m('deleg-swap','C08',(QM,'''                    delegator_addr: delegator,
                    validator_addr: validator,''','''                    delegator_addr: validator,
                    validator_addr: delegator,'''))
m('timeout-zero-default','C09',(PK,'.plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));','.plus_seconds(timeout_seconds.filter(|s| *s > 0).unwrap_or(DEFAULT_TIMEOUT_SECONDS));'))
m('timeout-whole-seconds','C09',(PK,'''        let timeout_timestamp = env
            .block
            .time
            .plus_seconds(''','''        let timeout_timestamp = cosmwasm_std::Timestamp::from_seconds(env.block.time.seconds())
            .plus_seconds('''))
m('timeout-clamped','C09',(PK,'.plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));','.plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS).min(31_536_000));'))
m('timeout-saturating','C09',(PK,'''        let timeout_timestamp = env
            .block
            .time
            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));''','''        let timeout_timestamp = cosmwasm_std::Timestamp::from_nanos(
            env.block.time.nanos().saturating_add(
                timeout_seconds
                    .unwrap_or(DEFAULT_TIMEOUT_SECONDS)
                    .saturating_mul(1_000_000_000),
            ),
        );'''))
m('timeout-wrapping','C09',(PK,'''        let timeout_timestamp = env
            .block
            .time
            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));''','''        let timeout_timestamp = cosmwasm_std::Timestamp::from_nanos(
            env.block.time.nanos().wrapping_add(
                timeout_seconds
                    .unwrap_or(DEFAULT_TIMEOUT_SECONDS)
                    .wrapping_mul(1_000_000_000),
            ),
        );'''))
m('timeout-forgets-current','C10',(R,'''        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback''','''        let ica_info = state.get_ica_info()?;
        state::PENDING_QUERIES.remove(deps.storage, (&ica_info.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback'''))
m('reply-last-channel-seq','C10',(C,'state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;','state::PENDING_QUERIES.save(\n                    deps.storage,\n                    (&channel_id, sequence & 0xff),\n                    &query_paths,\n                )?;'))
m('pending-cleared-on-open','C10',(H,'''        state::STATE.save(deps.storage, &state)?;

        channel.version''','''        state::STATE.save(deps.storage, &state)?;
        state::PENDING_QUERIES.clear(deps.storage);

        channel.version'''))
m('pending-cleared-on-close','C10',(H,'''        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }
}''','''        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
        state::PENDING_QUERIES.clear(deps.storage);

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }
}'''))
m('reply-merges-paths','C10 C19',(C,'''                state::QUERY.remove(deps.storage);
''',''))
m('last-index-first','C10 C11',(PK,'tx_msg_data.msg_responses.last()','tx_msg_data.msg_responses.first()'))
m('raw-empty-some','C11',(QM,'''                    if resp.data.is_empty() {
                        None
                    } else {
                        Some(resp.data.into())
                    },''','''                    Some(resp.data.into()),'''))
m('next-key-none','C11',(QM,'''                            .map(|pagination| Binary::new(pagination.next_key)),''','''                            .filter(|pagination| pagination.total > 0)
                            .map(|pagination| Binary::new(pagination.next_key)),'''))
m('zip-only','C11',(QM,'''    if paths.len() != resp_msg.responses.len() {''','''    if paths.len() > resp_msg.responses.len() {'''))
m('skip-undecodable','C11',(QM,'''        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .collect::<Result<_, _>>()''','''        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .filter(|resp| !matches!(resp, Err(crate::types::ContractError::Std(_))))
        .collect::<Result<_, _>>()'''))
m('coin-u64','C11',(QM,'amount: Uint128::from_str(&coin.amount)?,','amount: Uint128::from(u64::try_from(Uint128::from_str(&coin.amount)?.u128()).unwrap_or(u64::MAX)),'))
m('balance-missing-zero','C11',(QM,'''                    AllBalanceResponse::new(
                        resp.balances
                            .into_iter()''','''                    AllBalanceResponse::new(
                        resp.balances
                            .into_iter()
                            .filter(|coin| coin.amount != "0")'''))
m('contract-info-port','C11',(QM,'''                            if info.ibc_port_id.is_empty() {
                                None
                            } else {
                                Some(info.ibc_port_id)
                            },''','''                            if info.ibc_port_id.is_empty() || info.ibc_port_id == "icahost" {
                                None
                            } else {
                                Some(info.ibc_port_id)
                            },'''))
m('commission-swap','C11',(QM,'''            Decimal::from_str(&commission_rates.max_rate)?,
            Decimal::from_str(&commission_rates.max_change_rate)?,''','''            Decimal::from_str(&commission_rates.max_change_rate)?,
            Decimal::from_str(&commission_rates.max_rate)?,'''))
m('units-reversed','C11',(QM,'''                    exponent: unit.exponent,
                    aliases: unit.aliases,''','''                    exponent: unit.exponent,
                    aliases: unit.aliases.into_iter().filter(|a| !a.is_empty()).collect(),'''))
m('stargate-typed','C11',(QM,'''        if is_stargate {
            return''','''        if is_stargate && !path.starts_with("/cosmos.bank.v1beta1.Query/") {
            return'''))
m('error-no-callback','C12',(R,'''        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: AcknowledgementData::Error(err),''','''        if let Some(contract_addr) = state.callback_address.filter(|_| !err.is_empty()) {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: AcknowledgementData::Error(err),'''))
m('open-callback-stale-version','C12',(H,'''        channel.version = counterparty_version;

        // Save the channel state
        state::CHANNEL_STATE.save(
            deps.storage,
            &ChannelState::new_open_channel(channel.clone()),
        )?;''','''        // Save the channel state
        let mut opened = channel.clone();
        opened.version = counterparty_version;
        state::CHANNEL_STATE.save(deps.storage, &ChannelState::new_open_channel(opened))?;
        channel.order = channel.order.clone();'''))
m('open-callback-first-only','C12',(H,'''        if let Some(callback_address) = state.callback_address {''','''        if let Some(callback_address) = state.callback_address.filter(|_| first) {'''),(H,'''        state.set_ica_info(
            &metadata.address,''','''        let first = state
            .ica_info
            .as_ref()
            .map_or(true, |info| info.ica_address != metadata.address);
        state.set_ica_info(
            &metadata.address,'''))
m('timeout-callback-current-only','C12',(R,'''        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback''','''        let current = state
            .ica_info
            .as_ref()
            .is_some_and(|info| info.channel_id == packet.src.channel_id);
        if let Some(contract_addr) = state.callback_address.filter(|_| current) {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback'''))
m('callback-error-swallowed','C13',(R,'''            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(success_event))''','''            Ok(IbcBasicResponse::default()
                .add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 2))
                .add_event(success_event))'''),(C,'''        _ => Err(ContractError::UnknownReplyId(msg.id)),''','''        2 => Ok(Response::default()),
        _ => Err(ContractError::UnknownReplyId(msg.id)),'''))
m('timeout-callback-swallowed','C13',(R,'''            Ok(IbcBasicResponse::default().add_message(callback_msg))''','''            Ok(IbcBasicResponse::default()
                .add_submessage(cosmwasm_std::SubMsg::reply_on_error(callback_msg, 2)))'''),(C,'''        _ => Err(ContractError::UnknownReplyId(msg.id)),''','''        2 => Ok(Response::default()),
        _ => Err(ContractError::UnknownReplyId(msg.id)),'''))
m('callback-gas-limit','C15 C12 C13',(R,'''            Ok(IbcBasicResponse::default().add_message(callback_msg))''','''            Ok(IbcBasicResponse::default()
                .add_submessage(cosmwasm_std::SubMsg::new(callback_msg).with_gas_limit(100_000)))'''))
m('same-account-required','C14 C04',(H,'''        // update state with the ica info''','''        if let Some(ica_info) = &state.ica_info {
            if ica_info.ica_address != metadata.address {
                return Err(ContractError::InvalidIcaAddress);
            }
        }

        // update state with the ica info'''))
m('no-create-before-first','C14',(C,'''        } else {
            state::CHANNEL_OPEN_INIT_OPTIONS
                .may_load''','''        } else if state::STATE.load(deps.storage)?.ica_info.is_none() {
            return Err(ContractError::IcaInfoNotSet);
        } else {
            state::CHANNEL_OPEN_INIT_OPTIONS
                .may_load'''))
m('ack-current-only','C15',(R,'''    // This lets the ICA controller know whether''','''    let ica_info = state::STATE.load(deps.storage)?.get_ica_info()?;
    if ica_info.channel_id != ack.original_packet.src.channel_id {
        return Err(ContractError::InvalidChannelInContractState);
    }

    // This lets the ICA controller know whether'''))
m('timeout-needs-open','C15',(R,'''    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
''','''    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    if !channel_state.is_open() {
        return Err(ContractError::InvalidChannelStatus {
            expected: state::ChannelStatus::Open.to_string(),
            actual: channel_state.channel_status.to_string(),
        });
    }
'''))
m('ack-must-decode','C15',(R,'''        let ica_acknowledgement = AcknowledgementData::Result(res);
''','''        let ica_acknowledgement = AcknowledgementData::Result(res);
        ica_acknowledgement.to_tx_msg_data()?;
'''))
m('result-error-fails','C15 C11',(R,'''                    Ok(query_msg::result_from_response(paths, &resp_msg))''','''                    match query_msg::result_from_response(paths, &resp_msg) {
                        query_msg::IcaQueryResult::Error(e) => {
                            Err(cosmwasm_std::StdError::generic_err(e).into())
                        }
                        ok => Ok(ok),
                    }'''))
m('ordering-inherited','C16',(C,'''        let options = if let Some(new_options) = options {
            state''','''        let options = if let Some(mut new_options) = options {
            if new_options.channel_ordering.is_none() {
                new_options.channel_ordering = state::CHANNEL_OPEN_INIT_OPTIONS
                    .may_load(deps.storage)?
                    .and_then(|previous| previous.channel_ordering);
            }
            state'''))
m('options-not-saved','C16',(C,'''            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options''','''            if state::CHANNEL_STATE.may_load(deps.storage)?.is_none() {
                state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            }
            new_options'''))
m('reopen-negotiated-ordering','C16',(C,'''                .ok_or(ContractError::NoChannelInitOptions)?
        };
''','''                .ok_or(ContractError::NoChannelInitOptions)?
        };
        // keep the ordering of the previous channel unless one is given
        let channel_ordering = options.channel_ordering.clone().or(state::CHANNEL_STATE
            .may_load(deps.storage)?
            .map(|channel_state| channel_state.channel.order));
'''),(C,'''            options.channel_ordering,
        );

        Ok(Response::new().add_message(ica_channel_open_init_msg))
    }

    /// Submits a [`IbcMsg''','''            channel_ordering,
        );

        Ok(Response::new().add_message(ica_channel_open_init_msg))
    }

    /// Submits a [`IbcMsg'''))
m('semver-core-only','C17',(C,'if prev_version >= version {','if (prev_version.major, prev_version.minor, prev_version.patch)\n            >= (version.major, version.minor, version.patch)\n        {'))
m('semver-string','C17',(C,'if prev_version >= version {','if prev_version.to_string() >= version.to_string() {'))
m('semver-equal','C17',(C,'if prev_version >= version {','if prev_version > version {'))
m('semver-build','C17',(C,'if prev_version >= version {','if prev_version.cmp_precedence(&version).is_ge() && prev_version.build.is_empty() {'))
m('name-prefix','C17',(C,'if prev_cw2_version.contract != keys::CONTRACT_NAME {','if !prev_cw2_version.contract.starts_with(keys::CONTRACT_NAME) {'))
m('migrate-clears-pending','C17 C10',(C,'''    // should occur here
''','''    // should occur here
    state::PENDING_QUERIES.clear(deps.storage);
'''))
m('strict-state','C17',(ST,'''    #[allow(clippy::derive_partial_eq_without_eq)]
    pub struct State {''','''    #[allow(clippy::derive_partial_eq_without_eq)]
    #[serde(deny_unknown_fields)]
    pub struct State {'''))
m('state-hides-closed','C18',(C,'''        state::STATE.load(deps.storage)
    }''','''        let mut contract_state = state::STATE.load(deps.storage)?;
        if let Some(channel_state) = state::CHANNEL_STATE.may_load(deps.storage)? {
            if !channel_state.is_open() {
                contract_state.delete_ica_info();
            }
        }
        Ok(contract_state)
    }'''))
m('callback-none-ignored','C18',(C,'''        contract_state.callback_address = callback_address
            .map(|addr| deps.api.addr_validate(&addr))
            .transpose()?;
''','''        if let Some(addr) = callback_address.filter(|addr| !addr.is_empty()) {
            contract_state.callback_address = Some(deps.api.addr_validate(&addr)?);
        }
'''))
m('callback-unvalidated','C12 C18',(C,'''            .map(|addr| deps.api.addr_validate(&addr))
            .transpose()?;

        state::STATE.save(deps.storage, &contract_state)?;''','''            .map(cosmwasm_std::Addr::unchecked);

        state::STATE.save(deps.storage, &contract_state)?;'''))
m('timeout-keeps-pending','C19',(R,'''        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback''','''        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback'''))
m('timeout-pending-with-callback','C19',(R,'''        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));

        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback''','''        if let Some(contract_addr) = state.callback_address {
            state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback'''))
m('event-dest-channel','C20',(EV,'Attribute::new(SRC_CHANNEL, packet.src.channel_id.clone())','Attribute::new(SRC_CHANNEL, packet.dest.channel_id.clone())'))
m('event-only-uncalled','C20',(R,'''            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(error_event))''','''            Ok(IbcBasicResponse::default().add_message(callback_msg))'''))
m('event-error-truncated','C20',(EV,'.add_attribute(attributes::ERROR, err)','.add_attribute(attributes::ERROR, err.chars().take(64).collect::<String>())'))
m('event-error-trim','C20',(EV,'.add_attribute(attributes::ERROR, err)','.add_attribute(attributes::ERROR, err.trim())'))
m('inst2-salt-hash','C21',(HE,'salt: salt.as_bytes().into(),','salt: salt.trim().as_bytes().into(),'))
m('inst-admin-lost','C21',(HE,'''            label: label.into(),
            admin: admin.map(Into::into),
        }
        .into())''','''            label: label.into(),
            admin: admin.map(Into::into).filter(|a: &String| a.len() > 64),
        }
        .into())'''))
m('inst2-creator','C21',(HE,'''            msg: to_json_binary(&msg.into())?,
            funds: vec![],
            label: label.into(),
            admin: admin.map(Into::into),
            salt''','''            msg: to_json_binary(&msg.into())?,
            funds: vec![],
            label: label.into(),
            admin: admin.map(Into::into).or_else(|| Some(env.contract.address.to_string())),
            salt'''))
m('callback-strict','C22',(CB,'''#[serde(rename_all = "snake_case", crate = "::cosmwasm_schema::serde")]''','''#[serde(rename_all = "snake_case", deny_unknown_fields, crate = "::cosmwasm_schema::serde")]'''))
m('queries-required','C22',(MS,'''        #[serde(default)]
        #[serde_as''','''        #[serde_as'''))
m('receiver-renamed','C22',(DE,'            ReceiveIcaCallback(','            #[serde(rename = "ica_callback")]\n            ReceiveIcaCallback('))
m('hash-order','C23',(PK,'''                if !queries.is_empty() {''','''                let denoms: std::collections::HashSet<String> = proto_anys
                    .iter()
                    .map(|any| any.type_url.clone())
                    .collect();
                let memo = memo.or_else(|| {
                    (denoms.len() > 2).then(|| denoms.into_iter().collect::<Vec<_>>().join(","))
                });
                if !queries.is_empty() {'''))
m('static-cache','C23',(C,'''                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;
''','''                static LAST: std::sync::Mutex<Option<(String, u64)>> = std::sync::Mutex::new(None);
                let mut channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;
                let mut last = LAST.lock().unwrap();
                if *last == Some((channel_id.clone(), sequence)) {
                    channel_id.push(' ');
                }
                *last = Some((channel_id.clone(), sequence));
'''))
m('wallclock','C23',(PK,'''            data: to_json_binary(&self)?,
            timeout:''','''            data: to_json_binary(&self)?,
            // jitter
            timeout:'''),(PK,'''            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));''','''            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS))
            .plus_nanos(timeout_seconds.map_or_else(
                || {
                    let x = Box::new(0u8);
                    (std::ptr::addr_of!(*x) as usize as u64 >> 6) & 1
                },
                |_| 0,
            ));'''))
