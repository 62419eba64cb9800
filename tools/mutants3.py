"""Third batch of trial changes: rare triggers, thresholds, cooperating sites; same format as mutants.py."""
from mutants import C,H,R,MD,PK,CM,QM,ST,HE,EV,SG,MS,CB,DE
M=[]
def m(i,p,*e): M.append((i,p.split(),list(e)))
REPLY='''                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;'''
PEND='''            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?'''
PREM='''        state::PENDING_QUERIES.remove(deps.storage, (&packet.src.channel_id, packet.sequence));'''

# C10: keys of different packets collide only for particular channel/sequence pairs
m('key-concat','C10 C19',(ST,'cw_storage_plus::Map<(&str, u64), Vec<(String, bool)>>','cw_storage_plus::Map<&str, Vec<(String, bool)>>'),
 (C,REPLY,'''                let key = format!("{channel_id}{sequence}");
                state::PENDING_QUERIES.save(deps.storage, &key, &query_paths)?;'''),
 (R,PEND,'''            .may_load(
                deps.storage,
                &format!("{}{}", packet.src.channel_id, packet.sequence),
            )?'''),(R,PREM,'''        state::PENDING_QUERIES.remove(
            deps.storage,
            &format!("{}{}", packet.src.channel_id, packet.sequence),
        );'''),(R,PEND,'''            .may_load(
                deps.storage,
                &format!("{}{}", packet.src.channel_id, packet.sequence),
            )?'''),(R,PREM,'''        state::PENDING_QUERIES.remove(
            deps.storage,
            &format!("{}{}", packet.src.channel_id, packet.sequence),
        );'''),(R,PREM,'''        state::PENDING_QUERIES.remove(
            deps.storage,
            &format!("{}{}", packet.src.channel_id, packet.sequence),
        );'''))
m('key-seq-only','C10',(ST,'cw_storage_plus::Map<(&str, u64), Vec<(String, bool)>>','cw_storage_plus::Map<u64, Vec<(String, bool)>>'),
 (C,'(&channel_id, sequence), &query_paths','sequence, &query_paths'),
 (C,'''                let channel_id = state::STATE.load(deps.storage)?.get_ica_info()?.channel_id;
''',''),
 *[(R,'(&packet.src.channel_id, packet.sequence)','packet.sequence')]*5)
m('reply-skips-oversized','C10',(C,REPLY,'''                if query_paths.len() <= 8 {
                    state::PENDING_QUERIES.save(
                        deps.storage,
                        (&channel_id, sequence),
                        &query_paths,
                    )?;
                }'''))
m('fund-u64','C07',(CM,'''                    depositor: sender,
                    amount: amount
                        .into_iter()
                        .map(|coin| ProtoCoin {
                            denom: coin.denom,
                            amount: coin.amount.to_string(),''','''                    depositor: sender,
                    amount: amount
                        .into_iter()
                        .map(|coin| ProtoCoin {
                            denom: coin.denom,
                            amount: u64::try_from(coin.amount.u128())
                                .unwrap_or(u64::MAX)
                                .to_string(),'''))
m('undelegate-swap-denom','C07',(CM,'''cosmos_sdk_proto::cosmos::staking::v1beta1::MsgUndelegate {
                    delegator_address,
                    validator_address: validator,
                    amount: Some(ProtoCoin {
                        denom: amount.denom,''','''cosmos_sdk_proto::cosmos::staking::v1beta1::MsgUndelegate {
                    delegator_address,
                    validator_address: validator,
                    amount: Some(ProtoCoin {
                        denom: amount.denom.to_lowercase(),'''))
m('msgs-grouped','C07',(PK,'''                if !queries.is_empty() {''','''                if proto_anys.len() > 3 {
                    proto_anys.sort_by(|a, b| a.type_url.cmp(&b.type_url));
                }
                if !queries.is_empty() {'''))
m('msgs-dedup-adjacent','C07',(PK,'''                if !queries.is_empty() {''','''                proto_anys.dedup();
                if !queries.is_empty() {'''))
m('memo-with-queries','C07 C08',(PK,'''                if !queries.is_empty() {''','''                let memo = memo.filter(|_| queries.len() < 2);
                if !queries.is_empty() {'''))
m('exec-funds-last','C07',(CM,'''                contract: contract_addr,
                msg: msg.to_vec(),
                funds: funds
                    .into_iter()''','''                contract: contract_addr,
                msg: msg.to_vec(),
                funds: funds
                    .into_iter()
                    .filter(|c| !c.amount.is_zero())'''))
m('transfer-height-rev0','C07',(CM,'timeout_height: timeout.block().map(|block| Height {','timeout_height: timeout.block().filter(|b| b.revision > 0).map(|block| Height {'))
m('weighted-empty','C07',(CM,'''                let options: Vec<ProtoWeightedVoteOption> = options
                    .into_iter()''','''                let options: Vec<ProtoWeightedVoteOption> = options
                    .into_iter()
                    .filter(|o| !o.weight.is_zero())'''))
m('account-from-previous','C07',(C,'''            &ica_info.ica_address,
        )?;''','''            &contract_state
                .callback_address
                .as_ref()
                .filter(|_| ica_info.ica_address.len() > 120)
                .map_or_else(|| ica_info.ica_address.clone(), ToString::to_string),
        )?;'''))
m('queries-cap','C08 C10',(PK,'''queries.into_iter().fold((vec![], vec![])''','''queries.into_iter().take(10).fold((vec![], vec![])'''))
m('page-reverse','C08',(QM,'reverse: pagination.reverse,','reverse: pagination.reverse && pagination.limit != 1,'))
m('raw-key-hex','C08',(QM,'''                    address: contract_addr,
                    query_data: key.into(),''','''                    address: contract_addr,
                    query_data: if key.len() > 32 { key[..32].to_vec() } else { key.into() },'''))
m('query-after-first','C08',(PK,'''                    proto_anys.push(cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?);''','''                    let any = cosmos_sdk_proto::Any::from_msg(&query_msg).map_err(|e| {
                        StdError::generic_err(format!("failed to convert query msg: {e}"))
                    })?;
                    let at = if memo.is_some() { proto_anys.len().min(1) } else { proto_anys.len() };
                    proto_anys.insert(at, any);'''))
m('timeout-year','C09',(PK,'''            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));''','''            .plus_seconds(timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, |s| {
                if s > 31_536_000 && s < 63_072_000 { 31_536_000 } else { s }
            }));'''))
m('timeout-u32','C09',(PK,'timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS)','timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, |s| u64::from(u32::try_from(s).unwrap_or(u32::MAX)))'))
m('timeout-query-longer','C09',(PK,'timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS)','timeout_seconds.unwrap_or(if self.data.len() > 2000 { 1200 } else { DEFAULT_TIMEOUT_SECONDS })'))
m('coins-zero-dropped','C11',(QM,'''                        resp.balances
                            .into_iter()''','''                        resp.balances
                            .into_iter()
                            .filter(|c| c.amount != "0")'''))
m('height-i64','C11',(QM,'height: resp_msg.height,','height: resp_msg.height & 0x7fff_ffff_ffff_ffff,'))
m('delegation-empty-none','C11',(QM,'''                            .and_then(|del_resp| {''','''                            .filter(|d| d.balance.as_ref().is_some_and(|b| b.amount != "0"))
                            .and_then(|del_resp| {'''))
m('metadata-empty-symbol','C11',(QM,'symbol: metadata.symbol,','symbol: if metadata.symbol.is_empty() { metadata.display.clone() } else { metadata.symbol },'))
m('stargate-large-cut','C11',(QM,'data: Binary::from(resp),','data: Binary::from(&resp[..resp.len().min(1024)]),'))
m('validators-dedup','C11',(QM,'''                        resp.validators
                            .into_iter()''','''                        resp.validators
                            .into_iter()
                            .filter(|v| !v.jailed)'''))
m('last-decodable','C11',(PK,'''let msg_resp = tx_msg_data.msg_responses.last().ok_or_else(|| {''','''let msg_resp = tx_msg_data
                .msg_responses
                .iter()
                .find(|r| r.type_url.ends_with("Response") && r.type_url.contains("ModuleQuery"))
                .or_else(|| tx_msg_data.msg_responses.last())
                .ok_or_else(|| {'''))
m('relayer-owner-silent','C12',(R,'''        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {''','''        if let Some(contract_addr) = state.callback_address.filter(|a| *a != relayer) {
            let callback_msg = IcaControllerCallbackMsg::OnTimeoutPacketCallback {'''))
m('error-empty-silent','C12',(R,'''        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: AcknowledgementData::Error(err),''','''        if let Some(contract_addr) = state.callback_address.filter(|_| !err.is_empty()) {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: AcknowledgementData::Error(err),'''))
m('open-cb-address-lower','C12 C04',(H,'''                ica_address: metadata.address,
                tx_encoding''','''                ica_address: metadata.address.to_lowercase(),
                tx_encoding'''))
m('account-lowercased','C04 C07 C18',(H,'''            &metadata.address,
            &channel.endpoint.channel_id,''','''            metadata.address.to_lowercase(),
            &channel.endpoint.channel_id,'''))
m('attempts-five','C14',(H,'''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;

        // Validate the host port''','''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;
        const ATTEMPTS: cw_storage_plus::Item<u64> = cw_storage_plus::Item::new("attempts");
        let n = ATTEMPTS.may_load(deps.storage)?.unwrap_or_default() + 1;
        if n > 6 {
            return Err(ContractError::ChannelOpenInitNotAllowed);
        }
        ATTEMPTS.save(deps.storage, &n)?;

        // Validate the host port'''),(H,'''        let mut state = state::STATE.load(deps.storage)?;
''','''        let mut state = state::STATE.load(deps.storage)?;
        cw_storage_plus::Item::<u64>::new("attempts").remove(deps.storage);
'''))
m('reopen-lifetime-cap','C14',(H,'''        channel.version = counterparty_version;
''','''        channel.version = counterparty_version;
        const OPENED: cw_storage_plus::Item<u64> = cw_storage_plus::Item::new("opened");
        let n = OPENED.may_load(deps.storage)?.unwrap_or_default() + 1;
        if n > 5 {
            return Err(ContractError::ActiveChannelAlreadySet);
        }
        OPENED.save(deps.storage, &n)?;
'''))
m('inflight-cap','C10 C15 C07',(C,'''                let query_paths = state::QUERY.load(deps.storage)?;
''','''                let query_paths = state::QUERY.load(deps.storage)?;
                let busy = state::PENDING_QUERIES
                    .prefix(&channel_id)
                    .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
                    .take(6)
                    .count();
                if busy == 6 {
                    return Err(ContractError::IcaInfoNotSet);
                }
'''))
m('inflight-evicts','C10',(C,REPLY,'''                let oldest = state::PENDING_QUERIES
                    .prefix(&channel_id)
                    .keys(deps.storage, None, None, cosmwasm_std::Order::Ascending)
                    .collect::<Result<Vec<u64>, _>>()?;
                if oldest.len() >= 5 {
                    state::PENDING_QUERIES.remove(deps.storage, (&channel_id, oldest[0]));
                }
'''+REPLY))
m('options-after-failed','C16',(H,'''        // Check if the channel is already exists
''','''        if channel.order == cosmwasm_std::IbcOrder::Unordered {
            let mut o = state::CHANNEL_OPEN_INIT_OPTIONS.load(deps.storage)?;
            if o.counterparty_port_id.is_none() {
                o.counterparty_port_id = Some(keys::HOST_PORT_ID.to_string());
                o.channel_ordering = None;
                state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &o)?;
            }
        }
        // Check if the channel is already exists
'''))
m('migrate-drops-expired','C17 C02',(C,'''    // If state structure changed in any contract version in the way migration is needed, it
''','''    let mut o = cw_ownable::get_ownership(deps.storage)?;
    if o.pending_expiry.is_some_and(|e| e.is_expired(&_env.block)) {
        o.pending_owner = None;
        o.pending_expiry = None;
        cosmwasm_std::Storage::set(
            deps.storage,
            b"ownership",
            &cosmwasm_std::to_json_vec(&o)?,
        );
    }
    // If state structure changed in any contract version in the way migration is needed, it
'''))
m('migrate-old-clears-callback','C17',(C,'''    migrate::validate_channel_encoding(deps.as_ref())?;
''','''    migrate::validate_channel_encoding(deps.as_ref())?;
    if cw2::get_contract_version(deps.storage)?.version.starts_with("0.3.") {
        state::STATE.update(deps.storage, |mut s| {
            s.callback_address = None;
            Ok::<_, ContractError>(s)
        })?;
    }
'''))
m('migrate-pending-ordered','C17 C10',(C,'''    migrate::validate_channel_encoding(deps.as_ref())?;
''','''    migrate::validate_channel_encoding(deps.as_ref())?;
    if let Some(c) = state::CHANNEL_STATE.may_load(deps.storage)? {
        if !c.is_open() {
            state::PENDING_QUERIES.clear(deps.storage);
        }
    }
'''))
m('expiry-inherited','C02',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        let old = cw_ownable::get_ownership(deps.storage)?.pending_expiry;
        let action = match action {
            cw_ownable::Action::TransferOwnership {
                new_owner,
                expiry: None,
            } => cw_ownable::Action::TransferOwnership {
                new_owner,
                expiry: old,
            },
            a => a,
        };
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('accept-clears-callback','C18 C02 C12',(C,'''        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
''','''        if action == cw_ownable::Action::AcceptOwnership {
            let mut s = state::STATE.load(deps.storage)?;
            if s.callback_address.as_ref() == Some(&info.sender) {
                s.callback_address = None;
                state::STATE.save(deps.storage, &s)?;
            }
        }
        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;
'''))
m('transfer-keeps-open-flag','C03',(C,'''        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;
''','''        state::ALLOW_CHANNEL_CLOSE_INIT.save(deps.storage, &true)?;
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &!channel_state.is_ordered())?;
'''))
m('ack-other-connection','C05',(H,'''            if channel_state.is_open() {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }

        // portID cannot''','''            if channel_state.is_open()
                && channel_state.channel.connection_id == channel.connection_id
            {
                return Err(ContractError::ActiveChannelAlreadySet);
            }
        }

        // portID cannot'''))
m('timeout-ordered-after-close','C06',(R,'channel_state.channel.endpoint == msg.packet.src','channel_state.channel.endpoint.channel_id.ends_with(&msg.packet.src.channel_id[8..])'))
m('event-seq-hex','C20',(EV,'packet.sequence.to_string()','if packet.sequence > u64::from(u32::MAX) { format!("{:x}", packet.sequence) } else { packet.sequence.to_string() }'))
m('event-err-lossy','C20',(EV,'.add_attribute(attributes::ERROR, err)','.add_attribute(attributes::ERROR, if err.is_empty() { "unknown" } else { err })'))
m('ack-err-json','C15',(R,'''        AcknowledgementData::Error(err) => {
''','''        AcknowledgementData::Error(err) => {
            if err.len() > 1024 {
                return Err(ContractError::UnknownDataType(err));
            }
'''))
m('timeout-needs-channel-version','C15',(R,'''    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)
''','''    if msg.packet.timeout.timestamp().is_none_or(|t| t > _env.block.time) {
        return Err(ContractError::InvalidChannelInContractState);
    }
    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)
'''))
m('helper-salt-utf8','C21',(HE,'salt: salt.as_bytes().into(),','salt: salt.trim().as_bytes().into(),'))
m('helper-label-trim','C21',(HE,'''            code_id: self.code_id(),
            msg,
            funds: vec![],
            label: label.into(),''','''            code_id: self.code_id(),
            msg,
            funds: vec![],
            label: label.into().trim().to_string(),'''))
m('helper-owner-default','C21',(HE,'''        let msg = to_json_binary(&msg.into())?;
        Ok(WasmMsg::Instantiate {''','''        let mut msg = msg.into();
        if msg.send_callbacks_to == msg.owner {
            msg.owner = None;
        }
        let msg = to_json_binary(&msg)?;
        Ok(WasmMsg::Instantiate {'''))
m('relayer-skipped','C22',(CB,'''        /// The relayer that submitted acknowledgement packet
        relayer: Addr,
    },''','''        /// The relayer that submitted acknowledgement packet
        #[cfg_attr(not(feature = "query"), serde(rename = "relayer_address"))]
        relayer: Addr,
    },'''))
