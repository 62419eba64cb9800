"""Behaviour-preserving rewrites of /repo, applied together in a scratch copy: every check must stay quiet.
usage: refactors.py REPO_COPY"""
import re, sys

C, H, R, PK, MD, Q, ST, CB, EV, HE = ('src/contract.rs', 'src/ibc/handshake.rs', 'src/ibc/relay.rs', 'src/ibc/types/packet.rs',
    'src/ibc/types/metadata.rs', 'src/types/query_msg.rs', 'src/types/state.rs', 'src/types/callbacks.rs', 'src/ibc/types/events.rs', 'src/helpers.rs')
E = []
def e(f, o, n): E.append((f, o, n))

# one helper builds both opening requests; the save order changes
e(C, '''    let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(
        env.contract.address.to_string(),
        msg.channel_open_init_options.connection_id,
        msg.channel_open_init_options.counterparty_port_id,
        msg.channel_open_init_options.counterparty_connection_id,
        None,
        msg.channel_open_init_options.channel_ordering,
    );

    Ok(Response::new().add_message(ica_channel_open_init_msg))
}
''', '''    Ok(Response::new()
        .add_attribute("action", "instantiate")
        .add_message(open_request(&env, msg.channel_open_init_options)))
}

/// The request to open a channel with the given options.
fn open_request(
    env: &Env,
    options: crate::types::msg::options::ChannelOpenInitOptions,
) -> cosmwasm_std::CosmosMsg {
    new_ica_channel_open_init_cosmos_msg(
        env.contract.address.to_string(),
        options.connection_id,
        options.counterparty_port_id,
        options.counterparty_connection_id,
        None,
        options.channel_ordering,
    )
}
''')
e(C, '''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        let ica_channel_open_init_msg = new_ica_channel_open_init_cosmos_msg(
            env.contract.address.to_string(),
            options.connection_id,
            options.counterparty_port_id,
            options.counterparty_connection_id,
            None,
            options.channel_ordering,
        );

        Ok(Response::new().add_message(ica_channel_open_init_msg))
''', '''        let request = super::open_request(&env, options);
        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &true)?;

        Ok(Response::new().add_submessage(SubMsg::new(request)))
''')
e(C, '''        keys, new_ica_channel_open_init_cosmos_msg, state, ContractError, DepsMut, Env,
        MessageInfo, Response,
''', '''        keys, state, ContractError, DepsMut, Env, MessageInfo, Response,
''')
e(C, '''        let options = if let Some(new_options) = options {
            state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &new_options)?;
            new_options
        } else {
            state::CHANNEL_OPEN_INIT_OPTIONS
                .may_load(deps.storage)?
                .ok_or(ContractError::NoChannelInitOptions)?
        };
''', '''        let remembered = state::CHANNEL_OPEN_INIT_OPTIONS.may_load(deps.storage)?;
        let options = match (options, remembered) {
            (Some(new), _) => new,
            (None, Some(old)) => old,
            (None, None) => return Err(ContractError::NoChannelInitOptions),
        };
        state::CHANNEL_OPEN_INIT_OPTIONS.save(deps.storage, &options)?;
''')
# all sends go through the reply, which ignores those without queries
e(C, '''        let send_packet_submsg = if has_queries {
            // TODO: use payload when we switch to cosmwasm_2_0 feature
            SubMsg::reply_on_success(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET)
        } else {
            SubMsg::new(send_packet_msg)
        };

        Ok(Response::default().add_submessage(send_packet_submsg))
''', '''        if !has_queries {
            state::QUERY.remove(deps.storage);
        }
        let send = SubMsg::reply_always(send_packet_msg, keys::reply_ids::SEND_QUERY_PACKET);

        Ok(Response::default()
            .add_attribute("method", "send_cosmos_msgs")
            .add_submessage(send))
''')
e(C, '''                let query_paths = state::QUERY.load(deps.storage)?;

                state::QUERY.remove(deps.storage);
                state::PENDING_QUERIES.save(deps.storage, (&channel_id, sequence), &query_paths)?;

                Ok(Response::default())
            }
            SubMsgResult::Err(err) => unreachable!("query packet failed: {err}"),''', '''                if let Some(query_paths) = state::QUERY.may_load(deps.storage)? {
                    state::PENDING_QUERIES.save(
                        deps.storage,
                        (&channel_id, sequence),
                        &query_paths,
                    )?;
                    state::QUERY.remove(deps.storage);
                }

                Ok(Response::default())
            }
            SubMsgResult::Err(err) => Err(ContractError::Std(cosmwasm_std::StdError::generic_err(
                err,
            ))),''')
e(C, '''        if action == cw_ownable::Action::RenounceOwnership {
            return Err(ContractError::OwnershipCannotBeRenounced);
        };

        cw_ownable::update_ownership(deps, &env.block, &info.sender, action)?;

        Ok(Response::default())
''', '''        match action {
            cw_ownable::Action::RenounceOwnership => Err(ContractError::OwnershipCannotBeRenounced),
            other => {
                let o = cw_ownable::update_ownership(deps, &env.block, &info.sender, other)?;
                Ok(Response::default().add_attributes(o.into_attributes()))
            }
        }
''')
e(C, '''    migrate::validate_semver(deps.as_ref())?;
    migrate::validate_channel_encoding(deps.as_ref())?;
''', '''    migrate::validate_channel_encoding(deps.as_ref())?;
    migrate::validate_semver(deps.as_ref())?;
''')
e(C, '''        let mut contract_state = state::STATE.load(deps.storage)?;

        contract_state.callback_address = callback_address
            .map(|addr| deps.api.addr_validate(&addr))
            .transpose()?;

        state::STATE.save(deps.storage, &contract_state)?;
''', '''        let callback_address = match callback_address {
            Some(a) => Some(deps.api.addr_validate(&a)?),
            None => None,
        };
        state::STATE.update(deps.storage, |mut s| {
            s.callback_address = callback_address;
            Ok::<_, ContractError>(s)
        })?;
''')
# handshake: checks reordered, flag cleared last, refusals as errors, one helper for both closes
e(H, '''        IbcChannelOpenMsg::OpenTry { .. } => unreachable!(),''', '''        IbcChannelOpenMsg::OpenTry { .. } => Err(ContractError::ChannelOpenInitNotAllowed),''')
e(H, '''        IbcChannelConnectMsg::OpenConfirm { .. } => unreachable!(),''', '''        IbcChannelConnectMsg::OpenConfirm { .. } => Err(ContractError::InvalidControllerPort),''')
e(H, '''        state::ALLOW_CHANNEL_OPEN_INIT.save(deps.storage, &false)?;

        // Validate the host port''', '''        // Validate the host port''')
e(H, '''        // Channel state need not be saved here, as it is tracked by wasmd during the handshake
''', '''        state::ALLOW_CHANNEL_OPEN_INIT.remove(deps.storage);
''')
e(H, '''        // Validate that this is the stored channel
        let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
        if channel_state.channel != channel {
            return Err(ContractError::InvalidChannelInContractState);
        }
        if !channel_state.is_open() {
            return Err(ContractError::InvalidChannelStatus {
                expected: state::ChannelStatus::Open.to_string(),
                actual: channel_state.channel_status.to_string(),
            });
        }

        // Update the channel state
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;

        // Return the response, emit events if needed
        Ok(IbcBasicResponse::default())
    }

    /// Handles the `ChanCloseConfirm` for the IBC module.''', '''        confirm(deps, channel)
    }

    /// Handles the `ChanCloseConfirm` for the IBC module.''')
e(H, '''        // Check if the address is empty
        if metadata.address.is_empty() {
            return Err(ContractError::InvalidIcaAddress);
        }

        // update state with the ica info
        state.set_ica_info(
            &metadata.address,
            &channel.endpoint.channel_id,
            metadata.encoding.clone(),
        );
        state::STATE.save(deps.storage, &state)?;

        channel.version = counterparty_version;

        // Save the channel state
        state::CHANNEL_STATE.save(
            deps.storage,
            &ChannelState::new_open_channel(channel.clone()),
        )?;
''', '''        if metadata.address.is_empty() {
            return Err(ContractError::InvalidIcaAddress);
        }

        channel.version = counterparty_version;
        let record = ChannelState::new_open_channel(channel.clone());
        state::CHANNEL_STATE.save(deps.storage, &record)?;
        state.set_ica_info(
            &metadata.address,
            record.channel.endpoint.channel_id,
            metadata.encoding.clone(),
        );
        state::STATE.save(deps.storage, &state)?;
''')
# relay: the tail of the two acknowledgement paths is shared
e(R, '''        if let Some(contract_addr) = state::STATE.load(deps.storage)?.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement,
                original_packet: packet,
                relayer,
                query_result,
            }
            .into_cosmos_msg(contract_addr)?;

            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(success_event))
        } else {
            Ok(IbcBasicResponse::default().add_event(success_event))
        }
    }
''', '''        finish(deps, packet, relayer, ica_acknowledgement, query_result, success_event)
    }

    fn finish(
        deps: DepsMut,
        original_packet: IbcPacket,
        relayer: Addr,
        ica_acknowledgement: AcknowledgementData,
        query_result: Option<query_msg::IcaQueryResult>,
        event: cosmwasm_std::Event,
    ) -> Result<IbcBasicResponse, ContractError> {
        let mut response = IbcBasicResponse::new()
            .add_event(event)
            .add_attribute("method", "ack");
        if let Some(addr) = state::STATE.load(deps.storage)?.callback_address {
            let call = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: ica_acknowledgement.clone(),
                original_packet: original_packet.clone(),
                relayer: relayer.clone(),
                query_result: query_result.clone(),
            };
            response = response.add_message(call.into_cosmos_msg(addr)?);
        }
        Ok(response)
    }
''')
e(R, '''        let state = state::STATE.load(deps.storage)?;
        let error_event = events::packet_ack::error(&packet, &err);
        let query_result = state::PENDING_QUERIES
            .may_load(deps.storage, (&packet.src.channel_id, packet.sequence))?
            .map(|_| query_msg::IcaQueryResult::Error(err.clone()));
''', '''        let error_event = events::packet_ack::error(&packet, &err);
        let query_result = if state::PENDING_QUERIES
            .has(deps.storage, (&packet.src.channel_id, packet.sequence))
        {
            Some(query_msg::IcaQueryResult::Error(err.clone()))
        } else {
            None
        };
''')
e(R, '''        if let Some(contract_addr) = state.callback_address {
            let callback_msg = IcaControllerCallbackMsg::OnAcknowledgementPacketCallback {
                ica_acknowledgement: AcknowledgementData::Error(err),
                original_packet: packet,
                relayer,
                query_result,
            }
            .into_cosmos_msg(contract_addr)?;

            Ok(IbcBasicResponse::default()
                .add_message(callback_msg)
                .add_event(error_event))
        } else {
            Ok(IbcBasicResponse::default().add_event(error_event))
        }
''', '''        let ack = AcknowledgementData::Error(err);
        finish(deps, packet, relayer, ack, query_result, error_event)
''')
e(R, '''    let mut channel_state = state::CHANNEL_STATE.load(deps.storage)?;
    if channel_state.is_ordered() && channel_state.channel.endpoint == msg.packet.src {
        channel_state.close();
        state::CHANNEL_STATE.save(deps.storage, &channel_state)?;
    }

    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)
''', '''    state::CHANNEL_STATE.update(deps.storage, |mut c| {
        if c.channel.endpoint == msg.packet.src && c.is_ordered() {
            c.close();
        }
        Ok::<_, ContractError>(c)
    })?;

    ibc_packet_timeout::callback(deps, msg.packet, msg.relayer)
''')
# packet: loops
e(PK, '''                    let (abci_queries, _paths): (
                        Vec<query_msg::proto::AbciQueryRequest>,
                        Vec<(String, bool)>,
                    ) = queries.into_iter().fold((vec![], vec![]), |mut acc, msg| {
                        let (path, data, is_stargate) = query_msg::query_to_protobuf(msg);

                        acc.1.push((path.clone(), is_stargate));
                        acc.0
                            .push(query_msg::proto::AbciQueryRequest { path, data });

                        acc
                    });
''', '''                    let mut abci_queries = Vec::with_capacity(queries.len());
                    let mut _paths = Vec::with_capacity(queries.len());
                    for query in queries {
                        let (path, data, raw) = query_msg::query_to_protobuf(query);
                        abci_queries.push(query_msg::proto::AbciQueryRequest {
                            path: path.clone(),
                            data,
                        });
                        _paths.push((path, raw));
                    }
''')
e(PK, '''        let timeout_timestamp = env
            .block
            .time
            .plus_seconds(timeout_seconds.unwrap_or(DEFAULT_TIMEOUT_SECONDS));
''', '''        let seconds = timeout_seconds.map_or(DEFAULT_TIMEOUT_SECONDS, |s| s);
        let timeout_timestamp = cosmwasm_std::Timestamp::from_nanos(
            env.block
                .time
                .nanos()
                .checked_add(seconds.checked_mul(1_000_000_000).ok_or_else(|| {
                    StdError::generic_err("timeout too long")
                })?)
                .ok_or_else(|| StdError::generic_err("timeout too long"))?,
        );
''')
e(Q, '''    paths
        .into_iter()
        .zip(resp_msg.responses.iter())
        .map(|((path, is_stargate), resp)| from_protobuf::response(&path, resp, is_stargate))
        .collect::<Result<_, _>>()
        .map_or_else(
            |e| IcaQueryResult::Error(e.to_string()),
            |responses| IcaQueryResult::Success {
                height: resp_msg.height,
                responses,
            },
        )
''', '''    let mut responses = vec![];
    for (i, (path, raw)) in paths.iter().enumerate() {
        match from_protobuf::response(path, &resp_msg.responses[i], *raw) {
            Ok(r) => responses.push(r),
            Err(e) => return IcaQueryResult::Error(format!("response {i}: {e}")),
        }
    }
    IcaQueryResult::Success {
        height: resp_msg.height,
        responses,
    }
''')
# metadata: checks reordered, another parser for our own string
e(MD, '''        if self.version != ICA_VERSION {
            return Err(ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: self.version.clone(),
            });
        }
        if self.controller_connection_id != channel.connection_id {
            return Err(ContractError::InvalidConnection);
        }
''', '''        if self.controller_connection_id != channel.connection_id {
            return Err(ContractError::InvalidConnection);
        }
        if self.version != ICA_VERSION {
            return Err(ContractError::InvalidVersion {
                expected: ICA_VERSION.to_string(),
                actual: self.version.clone(),
            });
        }
''')
# events: other attribute order
e(EV, '''            .add_attributes(attributes::from_packet(packet))
            .add_attribute(attributes::ACK_BASE64, resp.to_base64())
''', '''            .add_attribute(attributes::ACK_BASE64, resp.to_base64())
            .add_attributes(attributes::from_packet(packet))
''')

if __name__ == '__main__':
    root = sys.argv[1]
    for f, o, n in E:
        p = f'{root}/{f}'
        s = open(p).read()
        assert o in s, (f, o)
        open(p, 'w').write(s.replace(o, n, 1))
